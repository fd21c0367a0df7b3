package main

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/big"
	"net"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxkeyswitch "github.com/ldsec/unlynx/lib/key_switch"
	libunlynxshuffle "github.com/ldsec/unlynx/lib/shuffle"
	protocolsunlynx "github.com/ldsec/unlynx/protocols"
	servicesunlynx "github.com/ldsec/unlynx/services"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/kyber/v3/util/key"
	"go.dedis.ch/onet/v3"
	"go.dedis.ch/onet/v3/network"
)

func init() {
	register(&Check{
		ID:    "C21",
		Rule:  "freshness cases call every encrypting, key-switching and re-randomising function (alone, in parallel, again on the same input, and as collective protocols over real servers) and compare every random component with all others of the process (equal, opposite, null, small multiple of the base, in arithmetic progression) and, at the end of the check, with those of the other processes; wire cases run surveys on real servers that talk TCP through recording relays and search the complete byte streams for private keys, survey secrets, encrypted values, their points, decryption shares and readable encryptions; an evaluation is one family of components or one survey, non-trivial with at least two components or one byte between servers (distinct by function, shape, size)",
		NetNS: true,
		Assumptions: []string{
			"components taken from one precomputed table, and the copies a data provider asks for with data repetitions, repeat by design",
			"attributes a data provider submits in clear, and the dummy lines and noise, are not encrypted attributes",
			"the byte streams are those of plain TCP between the servers; the connections of clients are not recorded",
		},
		Cases: c21Cases,
		Final: func(d *driver) {
			if d.retried > 0 {
				return // a case may have been booked twice
			}
			n, m := d.counts["random_components"], int64(len(d.seen["random_components"]))
			if n != m {
				d.addViol(viol{I: -1, Key: "repeats-across-processes", Msg: fmt.Sprintf("%d random components of %d processes, only %d different", n, d.nworkers, m)})
			}
		},
	})
}

// ---- freshness

// pool holds every random component seen in this process.
type pool struct {
	sync.Mutex
	seen map[string]string
}

var randPool = &pool{seen: map[string]string{}}

// canon identifies P and -P.
func canon(p kyber.Point) string {
	b := []byte(ps(p))
	b[31] &= 0x7f
	return string(b)
}

// add judges the components made in one go, in order, and adds them.
func (f *pool) add(t *T, what string, pts []kyber.Point) {
	null := suite.Point().Null()
	bad := map[string]int{}
	first := map[string]string{}
	hit := func(k, format string, a ...interface{}) {
		if bad[k] == 0 {
			first[k] = fmt.Sprintf(format, a...)
		}
		bad[k]++
	}
	diffs := map[string]int{}
	f.Lock()
	for i, p := range pts {
		if p == nil {
			hit("missing", "component %d of %d is missing", i, len(pts))
			continue
		}
		if p.Equal(null) {
			hit("null", "component %d of %d is null: the encryption is readable by anyone", i, len(pts))
			continue
		}
		if v, ok := dlog(p); ok {
			hit("small", "component %d of %d is %d times the base", i, len(pts), v)
		}
		c := canon(p)
		if was, ok := f.seen[c]; ok {
			hit("repeats", "component %d of %d is (up to its sign) that of %s", i, len(pts), was)
		} else {
			f.seen[c] = fmt.Sprintf("%s, component %d", what, i)
			t.Seen("random_components", hex.EncodeToString([]byte(c[:8])))
			t.Count("random_components", 1)
		}
		if i == 0 || pts[i-1] == nil {
			continue
		}
		d := suite.Point().Sub(p, pts[i-1])
		if v, ok := dlog(d); ok && v != 0 {
			hit("related", "components %d and %d differ by %d times the base", i-1, i, v)
		}
		if d.Equal(pts[i-1]) {
			hit("related", "component %d is twice component %d", i, i-1)
		}
		if !d.Equal(null) {
			dc := canon(d)
			if j, ok := diffs[dc]; ok {
				hit("related", "components %d and %d differ as components %d and %d do", i-1, i, j-1, j)
			}
			diffs[dc] = i
		}
	}
	f.Unlock()
	t.Count("components", int64(len(pts)))
	t.Count("oracle_checks", int64(5*len(pts)))
	var keys []string
	for k := range bad {
		keys = append(keys, k)
	}
	sortStrings(keys)
	for _, k := range keys {
		t.Fail("component-"+k, "%s: %s (%d such)", what, first[k], bad[k])
	}
}

func ksOf(v libunlynx.CipherVector) []kyber.Point {
	out := make([]kyber.Point, len(v))
	for i := range v {
		out[i] = v[i].K
	}
	return out
}

// blinds checks C-k*K = value, so that the random component is the one that
// hides the value.
func blinds(t *T, sk kyber.Scalar, v libunlynx.CipherVector, m []int64, what string) {
	if !t.Check(len(v) == len(m), "blinding", "%s: %d encryptions of %d values", what, len(v), len(m)) {
		return
	}
	for i := range v {
		if v[i].K == nil || v[i].C == nil || !isEnc(sk, &v[i], m[i]) {
			t.Fail("blinding", "%s: encryption %d of %d does not hide its value with its random component", what, i, len(v))
			return
		}
	}
}

// c21Values are n values: all equal, or mixed.
func c21Values(t *T, n int, equal bool) []int64 {
	v := mixedInts(t, n)
	if equal {
		x := int64(t.R.Intn(3))
		for i := range v {
			v[i] = x
		}
	}
	return v
}

func c21Encrypt(t *T, fn string, n int, equal bool, calls, par int) {
	sk, pk := newKey()
	what := fmt.Sprintf("%s of %d values (equal %v), %d calls, %d at a time", fn, n, equal, calls, par)
	outs := make([]libunlynx.CipherVector, calls)
	rs := make([][]kyber.Scalar, calls)
	vals := make([][]int64, calls)
	same := c21Values(t, n, equal)
	for i := range vals {
		vals[i] = same
		if !equal && i%2 == 1 {
			vals[i] = c21Values(t, n, false)
		}
		if fn == "NullCipherVector" {
			vals[i] = make([]int64, n)
		}
	}
	one := func(c int) {
		v := vals[c]
		switch fn {
		case "EncryptInt":
			for _, x := range v {
				outs[c] = append(outs[c], *libunlynx.EncryptInt(pk, x))
			}
		case "EncryptIntGetR":
			for _, x := range v {
				ct, r := libunlynx.EncryptIntGetR(pk, x)
				outs[c] = append(outs[c], *ct)
				rs[c] = append(rs[c], r)
			}
		case "EncryptScalar":
			for _, x := range v {
				outs[c] = append(outs[c], *libunlynx.EncryptScalar(pk, suite.Scalar().SetInt64(x)))
			}
		case "EncryptIntVector":
			outs[c] = *libunlynx.EncryptIntVector(pk, v)
		case "EncryptIntVectorGetRs":
			ct, r := libunlynx.EncryptIntVectorGetRs(pk, v)
			outs[c], rs[c] = *ct, r
		case "EncryptScalarVector":
			var ss []kyber.Scalar
			for _, x := range v {
				ss = append(ss, suite.Scalar().SetInt64(x))
			}
			outs[c] = *libunlynx.EncryptScalarVector(pk, ss)
		case "NullCipherVector":
			outs[c] = *libunlynx.NullCipherVector(len(v), pk)
		}
	}
	sem := make(chan bool, par)
	var wg sync.WaitGroup
	for c := range outs {
		wg.Add(1)
		sem <- true
		go func(c int) {
			defer wg.Done()
			one(c)
			<-sem
		}(c)
	}
	wg.Wait()
	for c := range outs {
		blinds(t, sk, outs[c], vals[c], what)
		randPool.add(t, what, ksOf(outs[c]))
		for i, r := range rs[c] {
			if i < len(outs[c]) {
				t.Check(r != nil && suite.Point().Mul(r, nil).Equal(outs[c][i].K), "other-r", "%s: the randomness returned for entry %d is not that of its encryption", what, i)
			}
		}
	}
	t.Nontrivial("%s", what)
}

// c21Provider encrypts what a data provider sends.
func c21Provider(t *T, rows, attrs int, equal bool, count bool) {
	_, pk := newKey()
	what := fmt.Sprintf("a data provider's %d responses with 3x%d attributes (equal %v, count %v)", rows, attrs, equal, count)
	var in []libunlynx.DpClearResponse
	for i := 0; i < rows; i++ {
		d := libunlynx.DpClearResponse{GroupByEnc: map[string]int64{}, WhereEnc: map[string]int64{}, AggregatingAttributesEnc: map[string]int64{}}
		for j := 0; j < attrs; j++ {
			x := func() int64 {
				if equal {
					return 1
				}
				return t.R.Int63n(50)
			}
			d.GroupByEnc[fmt.Sprint("g", j)] = x()
			d.WhereEnc[fmt.Sprint("w", j)] = x()
			d.AggregatingAttributesEnc[fmt.Sprint("s", j)] = x()
		}
		in = append(in, d)
	}
	take := func(ms ...map[string]libunlynx.CipherText) (pts []kyber.Point) {
		for _, m := range ms {
			var names []string
			for n := range m {
				names = append(names, n)
			}
			sort.Strings(names)
			for _, n := range names {
				pts = append(pts, m[n].K)
			}
		}
		return
	}
	var all []kyber.Point
	bytesOf := func(m map[string][]byte) map[string]libunlynx.CipherText {
		o := map[string]libunlynx.CipherText{}
		for n, b := range m {
			ct := libunlynx.CipherText{}
			must(ct.FromBytes(b))
			o[n] = ct
		}
		return o
	}
	for rep := 0; rep < 2; rep++ {
		for _, d := range in {
			r, err := libunlynx.EncryptDpClearResponse(d, pk, count)
			must(err)
			all = append(all, take(bytesOf(r.GroupByEnc), bytesOf(r.WhereEnc), bytesOf(r.AggregatingAttributesEnc))...)
		}
		m, err := servicesunlynx.EncryptDataToSurvey("dp", "survey", in, pk, 1, count)
		must(err)
		for _, r := range m.Responses {
			all = append(all, take(bytesOf(r.GroupByEnc), bytesOf(r.WhereEnc), bytesOf(r.AggregatingAttributesEnc))...)
		}
	}
	want := 4 * rows * 3 * attrs
	if count {
		want += 4 * rows
	}
	t.Check(len(all) == want, "provider-count", "%s: %d encryptions instead of %d", what, len(all), want)
	randPool.add(t, what, all)
	t.Nontrivial("%s", what)
}

// c21Switch calls the key-switching primitive.
func c21Switch(t *T, n, calls int, equal bool) {
	sk, pk := newKey()
	_, q := newKey()
	what := fmt.Sprintf("KeySwitchSequence of %d ciphertexts (equal %v), %d calls", n, equal, calls)
	cv := encVec(pk, c21Values(t, n, equal))
	rBs := ksOf(cv)
	if equal {
		for i := range rBs {
			rBs[i] = rBs[0].Clone()
		}
	}
	outs := make([]libunlynx.CipherVector, calls)
	vis := make([][]kyber.Scalar, calls)
	var wg sync.WaitGroup
	for c := 0; c < calls; c++ {
		wg.Add(1)
		go func(c int) {
			defer wg.Done()
			outs[c], _, _, vis[c] = libunlynxkeyswitch.KeySwitchSequence(q, rBs, sk)
		}(c)
		if c%3 == 0 {
			wg.Wait()
		}
	}
	wg.Wait()
	for c := range outs {
		if !t.Check(len(outs[c]) == n && len(vis[c]) == n, "switch-count", "%s: %d contributions", what, len(outs[c])) {
			continue
		}
		randPool.add(t, what, ksOf(outs[c]))
		for i := range outs[c] {
			want := suite.Point().Sub(suite.Point().Mul(vis[c][i], q), suite.Point().Mul(sk, rBs[i]))
			t.Check(suite.Point().Mul(vis[c][i], nil).Equal(outs[c][i].K) && want.Equal(outs[c][i].C), "switch-blinding", "%s: contribution %d is not blinded by its random component", what, i)
		}
	}
	if n > 0 {
		ct, _, _ := libunlynxkeyswitch.KeySwitch(q, rBs[0], sk)
		ct2, _, _ := libunlynxkeyswitch.KeySwitch(q, rBs[0], sk)
		randPool.add(t, "KeySwitch", []kyber.Point{ct.K, ct2.K})
	}
	t.Nontrivial("%s", what)
}

// c21Shuffle calls the shuffle without a table.
func c21Shuffle(t *T, rows, width, calls int, equal bool) {
	_, pk := newKey()
	what := fmt.Sprintf("ShuffleSequence of %dx%d (equal rows %v), %d calls", rows, width, equal, calls)
	in := encMat(pk, matInts(t, rows, width))
	if equal {
		for i := range in {
			in[i] = cloneVec(in[0])
		}
	}
	outs := make([][]libunlynx.CipherVector, calls)
	pis := make([][]int, calls)
	var wg sync.WaitGroup
	for c := 0; c < calls; c++ {
		wg.Add(1)
		go func(c int) {
			defer wg.Done()
			outs[c], pis[c], _ = libunlynxshuffle.ShuffleSequence(cloneMat(in), nil, pk, nil)
		}(c)
		if c%2 == 0 {
			wg.Wait()
		}
	}
	wg.Wait()
	for c := range outs {
		randPool.add(t, what, shuffleFactors(in, outs[c], pis[c]))
	}
	t.Nontrivial("%s", what)
}

// c21Tables makes the precomputed tables of several servers and surveys: each has a secret of its own, and then they
// have no element in common.
func c21Tables(t *T, n, lineSize int) {
	_, pk := newKey()
	secrets := make([]kyber.Scalar, n)
	for i := range secrets {
		secrets[i], _ = newKey()
		if i%2 == 1 {
			// next to the one before
			secrets[i] = suite.Scalar().Add(secrets[i-1], suite.Scalar().One())
		}
	}
	tabs := make([][]libunlynxshuffle.CipherVectorScalar, n)
	errs := make([]error, n)
	var wg sync.WaitGroup
	for i := range tabs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			switch i % 4 {
			case 0, 1:
				tabs[i], errs[i] = libunlynxshuffle.PrecomputationWritingForShuffling(false, "", "s", secrets[i], pk, lineSize)
			case 2:
				tabs[i], errs[i] = libunlynxshuffle.PrecomputeForShuffling("s", fmt.Sprintf("tables-%d-%d.gob", lineSize, i), secrets[i], pk, lineSize)
			default:
				tabs[i] = libunlynxshuffle.CreatePrecomputedRandomize(suite.Point().Base(), pk, suite.RandomStream(), 2*lineSize, 10)
			}
		}(i)
	}
	wg.Wait()
	if lineSize == 1 {
		// one after the other in one and the same file, and secrets that differ in one byte only
		one := suite.Scalar().One()
		eight := suite.Scalar().SetInt64(256)
		for j := 0; j < 31; j++ {
			secret := suite.Scalar().Add(secrets[0], one)
			if j == 0 {
				secret.Add(secret, one)
			}
			var tab []libunlynxshuffle.CipherVectorScalar
			var err error
			if j%2 == 0 {
				tab, err = libunlynxshuffle.PrecomputeForShuffling("s", "tables-one.gob", secret, pk, lineSize)
			} else {
				tab, err = libunlynxshuffle.PrecomputationWritingForShuffling(false, "", "s", secret, pk, lineSize)
			}
			tabs, errs = append(tabs, tab), append(errs, err)
			one = suite.Scalar().Mul(one, eight)
		}
	}
	for i, tab := range tabs {
		what := fmt.Sprintf("table %d of %d, lines for %d", i, n, lineSize)
		t.Check(errs[i] == nil && len(tab) > 0, "table", "%s: %v, %d lines", what, errs[i], len(tab))
		var ks []kyber.Point
		for _, l := range tab {
			for _, ct := range l.CipherV {
				ks = append(ks, ct.K)
			}
		}
		randPool.add(t, what, ks)
	}
	t.Nontrivial("tables %d/%d", n, lineSize)
}

// shuffleFactors are the points added to the first components.
func shuffleFactors(in, out []libunlynx.CipherVector, pi []int) []kyber.Point {
	var pts []kyber.Point
	for i := range out {
		for j := range out[i] {
			pts = append(pts, suite.Point().Sub(out[i][j].K, in[pi[i]][j].K))
		}
	}
	return pts
}

// c21KSRun switches the same data several times over real servers.
func c21KSRun(t *T, nc netCase, runs int, equal bool) {
	cl, ro, tr := nc.build(t)
	cv := encVec(ro.Aggregate, c21Values(t, nc.size, equal))
	if equal {
		for i := range cv {
			cv[i] = cloneCT(cv[0])
		}
	}
	_, q := newKey()
	what := fmt.Sprintf("key switching, %s (equal %v), run %d times", nc, equal, runs)
	var mu sync.Mutex
	var ups [][]kyber.Point
	s := newSched(t.R, nc.sched, func(proto string, info *onet.OverlayMsg, msg interface{}, buf []byte) {
		if m, ok := msg.(*protocolsunlynx.UpBytesMessage); ok {
			var l []kyber.Point
			for _, w := range cut(m.Data) {
				l = append(l, w.ct().K)
			}
			mu.Lock()
			ups = append(ups, l)
			mu.Unlock()
		}
	})
	for r := 0; r < runs; r++ {
		in := cloneVec(cv)
		pi := cl.create("KeySwitching", tr, func(tni *onet.TreeNodeInstance, pi onet.ProtocolInstance) {
			p := pi.(*protocolsunlynx.KeySwitchingProtocol)
			if tni.IsRoot() {
				p.TargetOfSwitch = &in
				p.TargetPublicKey = &q
			}
		})
		p := pi.(*protocolsunlynx.KeySwitchingProtocol)
		must(p.Start())
		res := <-p.FeedbackChannel
		randPool.add(t, what+": result", ksOf(res))
	}
	sig := s.done(t)
	mu.Lock()
	defer mu.Unlock()
	for i, l := range ups {
		randPool.add(t, fmt.Sprintf("%s: contribution message %d", what, i), l)
	}
	t.Check(len(ups) == runs*(nc.n-1), "switch-messages", "%s: %d contribution messages", what, len(ups))
	t.Nontrivial("%s/%s", what, sig)
}

// c21ShuffleRun shuffles over real servers, without tables.
func c21ShuffleRun(t *T, nc netCase, width, runs int) {
	cl, ro, tr := nc.build(t)
	sk := cl.secret()
	m := make([][]int64, nc.size)
	for i := range m {
		m[i] = append([]int64{int64(i + 1)}, randInts(t.R, width-1, 3)...)
	}
	in := encMat(ro.Aggregate, m)
	what := fmt.Sprintf("shuffling, %s, width %d, run %d times", nc, width, runs)
	var mu sync.Mutex
	steps := map[string][][]libunlynx.CipherVector{}
	var order []string
	s := newSched(t.R, nc.sched, func(proto string, info *onet.OverlayMsg, msg interface{}, buf []byte) {
		if b, ok := msg.(*protocolsunlynx.ShufflingBytesMessage); ok {
			c := cut(b.Data)
			var mat []libunlynx.CipherVector
			for i := 0; i+width <= len(c); i += width {
				var row libunlynx.CipherVector
				for j := 0; j < width; j++ {
					row = append(row, c[i+j].ct())
				}
				mat = append(mat, row)
			}
			id := fmt.Sprint(info.TreeNodeInfo.From.RoundID)
			mu.Lock()
			if steps[id] == nil {
				order = append(order, id)
			}
			steps[id] = append(steps[id], mat)
			mu.Unlock()
		}
	})
	var results [][]libunlynx.CipherVector
	for r := 0; r < runs; r++ {
		target := cloneMat(in)
		pi := cl.create("Shuffling", tr, func(tni *onet.TreeNodeInstance, pi onet.ProtocolInstance) {
			p := pi.(*protocolsunlynx.ShufflingProtocol)
			if tni.IsRoot() {
				p.ShuffleTarget = &target
			}
		})
		p := pi.(*protocolsunlynx.ShufflingProtocol)
		must(p.Start())
		results = append(results, <-p.FeedbackChannel)
	}
	sig := s.done(t)
	mu.Lock()
	defer mu.Unlock()
	rowOf := func(v libunlynx.CipherVector) int {
		x, ok := dlog(openPoint(sk, &v[0]))
		if !ok {
			return -1
		}
		return int(x) - 1
	}
	for r, id := range order {
		l := steps[id]
		from := in
		for k, to := range append(append([][]libunlynx.CipherVector{}, l...), results[r]) {
			if len(to) != len(from) {
				t.Fail("shuffle-messages", "%s: step %d turns %d rows into %d", what, k, len(from), len(to))
				break
			}
			at := map[int]int{}
			for i, v := range from {
				at[rowOf(v)] = i
			}
			pi := make([]int, len(to))
			ok := true
			for i, v := range to {
				j, has := at[rowOf(v)]
				pi[i] = j
				ok = ok && has
			}
			if !t.Check(ok, "shuffle-messages", "%s: step %d loses rows", what, k) {
				break
			}
			if k == len(l) && flatMat(to) == flatMat(from) {
				break // the root's result is the last message
			}
			randPool.add(t, fmt.Sprintf("%s: step %d", what, k), shuffleFactors(from, to, pi))
			t.Count("shuffle_steps", 1)
			from = to
		}
	}
	t.Check(len(order) == runs, "shuffle-messages", "%s: %d runs with messages", what, len(order))
	t.Nontrivial("%s/%s", what, sig)
}

// c21Tags: the tags of a survey do not tell the plaintexts: a null tag, or a
// tag that is the double of another, would.
func c21Tags(t *T, nc netCase, shuffled bool) {
	cl, ro, tr := nc.build(t)
	sv := newTagSurvey(cl)
	tags := map[int64]kyber.Point{}
	what := fmt.Sprintf("tags, %s, shuffled %v", nc, shuffled)
	s := newSched(t.R, nc.sched, nil)
	if shuffled {
		tags = learn(t, sv, []int64{-4, -3, -2, -1, 0, 1, 2, 3, 4}, nc, cl, tr)
	} else {
		runDDT(t, sv, nc, 16, cl, ro, tr)
		for v := int64(-4); v < 12; v++ {
			if b, ok := sv.tagOf[fmt.Sprint(v)]; ok {
				p := suite.Point()
				must(p.UnmarshalBinary([]byte(b)))
				tags[v] = p
			}
		}
	}
	sig := s.done(t)
	for v, p := range tags {
		t.Check(!p.Equal(suite.Point().Null()), "readable-tag", "%s: the tag of %d is null", what, v)
		_, small := dlog(p)
		t.Check(!small, "readable-tag", "%s: the tag of %d is a small multiple of the base", what, v)
		for w, o := range tags {
			if v != w && v != 0 {
				t.Check(!suite.Point().Mul(suite.Scalar().SetInt64(w), p).Equal(suite.Point().Mul(suite.Scalar().SetInt64(v), o)), "readable-tag", "%s: the tags of %d and %d are in the ratio of their plaintexts", what, v, w)
			}
		}
	}
	t.Nontrivial("%s/%s/%d", what, sig, len(tags))
}

// ---- the wire

// relay is a TCP relay in front of one server, which keeps every byte.
type relay struct {
	mu      sync.Mutex
	l       net.Listener
	to      string
	streams []*bytes.Buffer
}

func (r *relay) serve() {
	for {
		c, err := r.l.Accept()
		if err != nil {
			return
		}
		go func() {
			d, err := net.Dial("tcp", r.to)
			if err != nil {
				c.Close()
				return
			}
			go r.copy(d, c)
			r.copy(c, d)
		}()
	}
}

func (r *relay) copy(dst, src net.Conn) {
	b := &bytes.Buffer{}
	r.mu.Lock()
	r.streams = append(r.streams, b)
	r.mu.Unlock()
	buf := make([]byte, 1<<16)
	for {
		n, err := src.Read(buf)
		if n > 0 {
			r.mu.Lock()
			b.Write(buf[:n])
			r.mu.Unlock()
			if _, werr := dst.Write(buf[:n]); werr != nil {
				err = werr
			}
		}
		if err != nil {
			dst.Close()
			src.Close()
			return
		}
	}
}

// take returns what passed since the last call.
func (r *relay) take() [][]byte {
	r.mu.Lock()
	defer r.mu.Unlock()
	var out [][]byte
	for _, b := range r.streams {
		if b.Len() > 0 {
			out = append(out, append([]byte{}, b.Bytes()...))
			b.Reset()
		}
	}
	return out
}

type wcluster struct {
	*scluster
	relays []*relay
	privs  []kyber.Scalar
}

var wclusters = map[int]*wcluster{}

func freePort(pair bool) (net.Listener, int) {
	for i := 0; i < 1000; i++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		must(err)
		p := l.Addr().(*net.TCPAddr).Port
		if !pair {
			return l, p
		}
		l2, err := net.Listen("tcp", "127.0.0.1:"+strconv.Itoa(p+1))
		if err == nil {
			l2.Close()
			return l, p
		}
		l.Close()
	}
	panic("no free ports")
}

// getWCluster starts n servers behind recording relays.
func getWCluster(t *T, n int) *wcluster {
	if c := wclusters[n]; c != nil {
		return c
	}
	os.Setenv("CONODE_SERVICE_PATH", t.Dir)
	c := &wcluster{scluster: &scluster{}}
	for i := 0; i < n; i++ {
		pub, port := freePort(true)
		inner, iport := freePort(false)
		inner.Close()
		kp := key.NewKeyPair(suite)
		si := network.NewServerIdentity(kp.Public, network.NewTCPAddress("127.0.0.1:"+strconv.Itoa(port)))
		si.SetPrivate(kp.Private)
		for _, name := range onet.ServiceFactory.RegisteredServiceNames() {
			if s := onet.ServiceFactory.Suite(name); s != nil {
				k := key.NewKeyPair(s)
				si.ServiceIdentities = append(si.ServiceIdentities, network.NewServiceIdentity(name, s, k.Public, k.Private))
			}
		}
		srv := onet.NewServerTCPWithListenAddr(si, suite, "127.0.0.1:"+strconv.Itoa(iport))
		go srv.Start()
		for k := 0; !srv.Listening() && k < 500; k++ {
			time.Sleep(10 * time.Millisecond)
		}
		r := &relay{l: pub, to: "127.0.0.1:" + strconv.Itoa(iport)}
		go r.serve()
		c.relays = append(c.relays, r)
		c.privs = append(c.privs, kp.Private)
		c.servers = append(c.servers, srv)
		c.services = append(c.services, srv.Service(servicesunlynx.ServiceName).(*servicesunlynx.Service))
	}
	wclusters[n] = c
	return c
}

// needle is something that must not be on the wire.
type needle struct {
	b     []byte
	kind  string
	what  string
	after string // not meant directly after this
}

// haystack searches byte streams.
type haystack struct {
	points  map[string]needle // 32 bytes, sign bit cleared
	heads   map[uint32]bool
	strings []needle
}

func (h *haystack) point(kind string, p kyber.Point, what string) {
	if p.Equal(suite.Point().Null()) {
		return
	}
	c := canon(p)
	h.points[c] = needle{b: []byte(c), kind: kind, what: what}
	h.heads[binary.LittleEndian.Uint32([]byte(c))] = true
}

func (h *haystack) scalar(kind string, s kyber.Scalar, what string) {
	b, err := s.MarshalBinary()
	must(err)
	rev := make([]byte, len(b))
	for i := range b {
		rev[len(b)-1-i] = b[i]
	}
	add := func(x []byte, how string) {
		h.strings = append(h.strings, needle{b: x, kind: kind, what: what + " (" + how + ")"})
	}
	add(b, "as is")
	add(rev, "reversed")
	for _, x := range [][]byte{b, rev} {
		add([]byte(hex.EncodeToString(x)), "hexadecimal")
		add([]byte(strings.ToUpper(hex.EncodeToString(x))), "hexadecimal")
		add([]byte(base64.RawStdEncoding.EncodeToString(x)), "base64")
		add([]byte(base64.RawURLEncoding.EncodeToString(x)), "base64")
	}
	add([]byte(new(big.Int).SetBytes(rev).String()), "decimal")
	neg, err := suite.Scalar().Neg(s).MarshalBinary()
	must(err)
	add(neg, "negated")
}

func (h *haystack) value(kind string, v int64, what string) {
	add := func(x []byte, how string) {
		h.strings = append(h.strings, needle{b: x, kind: kind, what: what + " (" + how + ")"})
	}
	for _, x := range []int64{v, -v} {
		le, be := make([]byte, 8), make([]byte, 8)
		binary.LittleEndian.PutUint64(le, uint64(x))
		binary.BigEndian.PutUint64(be, uint64(x))
		add(le, "little endian")
		add(be, "big endian")
		var buf [16]byte
		add(append([]byte{}, buf[:binary.PutVarint(buf[:], x)]...), "zigzag varint")
		add(append([]byte{}, buf[:binary.PutUvarint(buf[:], uint64(x))]...), "varint")
		s := suite.Scalar().SetInt64(x)
		h.scalar(kind, s, what+", as a scalar")
	}
	add([]byte(strconv.FormatInt(v, 10)), "decimal")
	add([]byte(strconv.FormatInt(v, 16)), "hexadecimal")
}

func (h *haystack) search(t *T, streams [][]byte, what string) {
	hits := map[string]int{}
	report := func(n needle, at int) {
		k := n.kind
		hits[k]++
		if hits[k] <= 2 {
			t.Fail(k, "%s: the bytes between the servers contain %s, at offset %d of a stream", what, n.what, at)
		}
	}
	for _, s := range streams {
		t.Count("bytes_searched", int64(len(s)))
		for i := 0; i+32 <= len(s); i++ {
			// the sign bit is in the last byte
			if h.heads[binary.LittleEndian.Uint32(s[i:])] {
				w := append([]byte{}, s[i:i+32]...)
				w[31] &= 0x7f
				n, ok := h.points[string(w)]
				if ok && n.after != "" && i >= 32 && string(s[i-32:i]) == n.after {
					continue // (K, kK) is an encryption of 0
				}
				if ok {
					report(n, i)
				}
			}
		}
		for _, n := range h.strings {
			if at := bytes.Index(s, n.b); at >= 0 {
				report(n, at)
			}
		}
	}
	t.Count("needles", int64(len(h.points)+len(h.strings)))
	t.Count("oracle_checks", int64(len(h.points)+len(h.strings)))
}

// readable counts the pairs (multiple of the base, point) in the streams.
func readable(streams [][]byte, lim int64) (int, string) {
	dlog(suite.Point().Null())
	heads := map[uint32]bool{}
	for k, v := range dlogTab {
		if v >= -lim && v <= lim {
			heads[binary.LittleEndian.Uint32([]byte(k))] = true
		}
	}
	n, first := 0, ""
	for _, s := range streams {
		for i := 0; i+64 <= len(s); i++ {
			if !heads[binary.LittleEndian.Uint32(s[i:])] {
				continue
			}
			v, ok := dlogTab[string(s[i:i+32])]
			if !ok || v < -lim || v > lim {
				continue
			}
			if suite.Point().UnmarshalBinary(s[i+32:i+64]) == nil {
				n++
				if first == "" {
					first = fmt.Sprintf("%d times the base, then %x, after %x", v, s[i+32:i+64], s[maxInt(0, i-32):i])
				}
			}
		}
	}
	return n, first
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// c21Wire runs surveys through the relays.
func c21Wire(t *T, n int, sh surveyShape, surveys int) {
	c := getWCluster(t, n)
	for _, r := range c.relays {
		r.take()
	}
	for k := 0; k < surveys; k++ {
		c21WireOne(t, c, sh, k)
	}
}

func c21WireOne(t *T, c *wcluster, sh surveyShape, k int) {
	n := len(c.servers)
	members := randMembers(t.R, n, n)
	q := sh.query(t.R)
	subs := sh.data(t.R, q, members)
	// values that are not met by chance
	big := map[int64]bool{}
	wide := func() int64 {
		v := int64(1)<<40 + t.R.Int63n(1<<50)
		big[v] = true
		return v
	}
	groups := []int64{wide(), wide(), wide(), wide()}
	wheres := []int64{wide(), wide(), wide(), wide()}
	last := func(clear bool) int64 { // one value that is only ever encrypted
		if clear {
			return 0
		}
		return t.R.Int63n(2)
	}
	clear := map[int64]bool{}
	for i := range q.whereVals {
		q.whereVals[i] = wheres[int(q.whereVals[i])%3]
	}
	for _, s := range subs {
		for _, d := range s.resps {
			for i, m := range []map[string]int64{d.GroupByEnc, d.GroupByClear} {
				for a, v := range m {
					m[a] = groups[v%3+last(i == 1)]
				}
			}
			for i, m := range []map[string]int64{d.WhereEnc, d.WhereClear} {
				for a, v := range m {
					m[a] = wheres[v%3+last(i == 1)]
				}
			}
			for a := range d.AggregatingAttributesEnc {
				d.AggregatingAttributesEnc[a] = wide()
			}
			for a := range d.AggregatingAttributesClear {
				d.AggregatingAttributesClear[a] = wide()
			}
			for _, m := range []map[string]int64{d.GroupByClear, d.WhereClear, d.AggregatingAttributesClear} {
				for _, v := range m {
					clear[v] = true
				}
			}
		}
	}
	what := fmt.Sprintf("survey %d of %d servers, %s", k, n, sh)
	s := c.newSurvey(q, members, members[t.R.Intn(n)], false)
	s.subs = subs
	// the ciphertexts that travel, as the providers make them
	var mu sync.Mutex
	var cts []wct
	setWireHook(func(proto string, info *onet.OverlayMsg, msg interface{}, buf []byte) {
		var l []wct
		switch m := msg.(type) {
		case *protocolsunlynx.DeterministicTaggingBytesMessage:
			l = cut(m.Data)
		case *protocolsunlynx.ShufflingBytesMessage:
			l = cut(m.Data)
		case *protocolsunlynx.UpBytesMessage:
			l = cut(m.Data)
		case *protocolsunlynx.DownMessageBytes:
			for i := 0; i+32 <= len(m.Data); i += 32 {
				b := string(m.Data[i : i+32])
				l = append(l, wct{b, b})
			}
		}
		mu.Lock()
		cts = append(cts, l...)
		mu.Unlock()
	})
	defer setWireHook(nil)
	if err := s.create(); !t.Check(err == nil, "survey", "%s: creation refused: %v", what, err) {
		return
	}
	for i := range subs {
		m, err := servicesunlynx.EncryptDataToSurvey(fmt.Sprint("dp", subs[i].by), s.id, subs[i].resps, s.ro.Aggregate, subs[i].repetitions(), q.count)
		must(err)
		for _, r := range m.Responses {
			for _, mm := range []map[string][]byte{r.GroupByEnc, r.WhereEnc, r.AggregatingAttributesEnc} {
				for _, b := range mm {
					mu.Lock()
					cts = append(cts, cut(b)...)
					mu.Unlock()
				}
			}
		}
		err = c.ask(subs[i].server, m, &servicesunlynx.ServiceState{})
		if !t.Check(err == nil, "survey", "%s: submission refused: %v", what, err) {
			return
		}
	}
	var res servicesunlynx.ServiceResult
	err := c.ask(s.entry, &servicesunlynx.SurveyResultsQuery{SurveyID: s.id, ClientPublic: s.pk}, &res)
	if !t.Check(err == nil, "survey", "%s: results query failed: %v", what, err) {
		return
	}
	// the answer, judged by its points
	var got, want []string
	for _, r := range res.Results {
		l := ""
		for _, v := range []libunlynx.CipherVector{r.GroupByEnc, r.AggregatingAttributes} {
			for i := range v {
				l += ps(openPoint(s.sk, &v[i]))
			}
		}
		got = append(got, l)
		randPool.add(t, what+": result", ksOf(append(append(libunlynx.CipherVector{}, r.GroupByEnc...), r.AggregatingAttributes...)))
	}
	h := &haystack{points: map[string]needle{}, heads: map[uint32]bool{}}
	encrypted := !strings.Contains("clear mixed groupclear sumclear per-dp per-row", sh.mode)
	for g, tot := range q.answer(subs) {
		l := ""
		for _, f := range strings.Fields(strings.Trim(g, "[]")) {
			v, err := strconv.ParseInt(f, 10, 64)
			must(err)
			l += ps(pt(v))
		}
		for _, v := range tot {
			l += ps(pt(v))
			if v > 1<<32 && !clear[v] && encrypted {
				h.value("total-in-clear", v, fmt.Sprintf("the total %d of a group", v))
				h.point("total-in-clear", pt(v), fmt.Sprintf("the point of the total %d of a group", v))
			}
		}
		want = append(want, l)
	}
	sort.Strings(got)
	sort.Strings(want)
	t.Check(strings.Join(got, "|") == strings.Join(want, "|"), "survey", "%s: the answer is wrong", what)
	t.Count("surveys", 1)
	// what must not be there
	sum := suite.Scalar().Zero()
	for i, p := range c.privs {
		h.scalar("private-key", p, fmt.Sprintf("the private key of server %d", i))
		sum.Add(sum, p)
	}
	h.scalar("private-key", sum, "the collective private key")
	h.scalar("private-key", s.sk, "the querier's private key")
	prod := suite.Scalar().One()
	var secrets []kyber.Point
	for _, i := range members {
		sv, err := surveyOf(c.services[i], s.id)
		if !t.Check(err == nil, "survey", "%s: server %d does not know the survey: %v", what, i, err) {
			return
		}
		h.scalar("survey-secret", sv.SurveySecretKey, fmt.Sprintf("the survey secret of server %d", i))
		prod.Mul(prod, sv.SurveySecretKey)
		secrets = append(secrets, suite.Point().Mul(sv.SurveySecretKey, nil))
	}
	if n > 1 {
		h.scalar("survey-secret", prod, "the product of the survey secrets")
	}
	randPool.add(t, what+": survey secrets", secrets)
	for v := range big {
		if clear[v] {
			continue
		}
		h.value("value-in-clear", v, fmt.Sprintf("the encrypted value %d", v))
		h.point("value-in-clear", pt(v), fmt.Sprintf("the point of the encrypted value %d", v))
	}
	mu.Lock()
	seen := map[string]bool{}
	var uniq []wct
	for _, w := range cts {
		if !seen[w.all()] {
			seen[w.all()] = true
			uniq = append(uniq, w)
		}
	}
	mu.Unlock()
	for _, w := range uniq {
		ct := w.ct()
		if v, ok := dlog(ct.K); ok {
			if v == 0 || v == 1 || v == -1 {
				continue
			}
		}
		parts := suite.Point().Null()
		for i, p := range c.privs {
			share := suite.Point().Mul(p, ct.K)
			parts.Add(parts, share)
			h.point("decryption-share", share, fmt.Sprintf("the decryption share of server %d for a ciphertext", i))
			if w.k != w.c {
				h.point("decryption-share", suite.Point().Sub(ct.C, share), fmt.Sprintf("a ciphertext decrypted by server %d", i))
			}
		}
		h.point("decryption-share", parts, "the decryption share of all servers for a ciphertext")
		if x, ok := h.points[canon(parts)]; ok {
			x.after = w.k
			h.points[canon(parts)] = x
		}
		if w.k != w.c {
			h.point("decrypted", suite.Point().Sub(ct.C, parts), "a ciphertext decrypted by all servers")
		}
	}
	t.Count("ciphertexts_on_the_wire", int64(len(uniq)))
	time.Sleep(30 * time.Millisecond)
	var streams [][]byte
	total := 0
	for _, r := range c.relays {
		for _, b := range r.take() {
			streams = append(streams, b)
			total += len(b)
		}
	}
	t.Check(total > 1000 || n == 1, "nothing-recorded", "%s: only %d bytes between the servers", what, total)
	h.search(t, streams, what)
	if m, first := readable(streams, 4096); m > 0 {
		t.Count("readable_pairs_of_clear_attributes", int64(m))
		if encrypted {
			t.Fail("readable", "%s: %d encryptions between the servers are readable by anyone, e.g. %s", what, m, first)
		}
	}
	t.Nontrivial("%s/%d ciphertexts", what, len(uniq))
	t.Sample("%s: %d bytes, %d ciphertexts, %d needles", what, total, len(uniq), len(h.points)+len(h.strings))
}

func surveyOf(s *servicesunlynx.Service, id servicesunlynx.SurveyID) (sv servicesunlynx.Survey, err error) {
	x, err := s.Survey.Get(string(id))
	if err != nil {
		return sv, err
	}
	if x == nil {
		return sv, fmt.Errorf("no such survey")
	}
	return x.(servicesunlynx.Survey), nil
}

func c21Cases(tier string, seed int64) []Case {
	var out []Case
	add := func(name string, cost float64, f func(t *T)) {
		out = append(out, Case{Name: name, Cost: cost, Run: f})
	}
	rounds := 1
	if tier == "thorough" {
		rounds = 6
	}
	fns := []string{"EncryptInt", "EncryptIntGetR", "EncryptScalar", "EncryptIntVector", "EncryptIntVectorGetRs", "EncryptScalarVector", "NullCipherVector"}
	for r := 0; r < rounds; r++ {
		r := r
		for _, fn := range fns {
			fn := fn
			for _, par := range []int{1, 8} {
				par := par
				add(fmt.Sprintf("enc/%s/par%d/%d", fn, par, r), 2.5, func(t *T) {
					for _, n := range []int{1, 2, 99, 100, 101, 350 + 50*r} {
						for _, eq := range []bool{true, false} {
							c21Encrypt(t, fn, n, eq, 3, par)
						}
					}
				})
			}
		}
		add(fmt.Sprintf("tables/%d", r), 1, func(t *T) {
			for i, ls := range []int{1, 2, 6, 20} {
				c21Tables(t, 8, ls+8*i*r)
			}
		})
		for _, eq := range []bool{true, false} {
			eq := eq
			add(fmt.Sprintf("provider/%v/%d", eq, r), 1, func(t *T) {
				for i, rows := range []int{1, 2, 7, 120} {
					c21Provider(t, rows, 1+(i+r)%4, eq, i%2 == 0)
				}
			})
			add(fmt.Sprintf("switch/%v/%d", eq, r), 3, func(t *T) {
				for _, n := range []int{0, 1, 2, 99, 100, 101, 300 + 100*r} {
					c21Switch(t, n, 4, eq)
				}
			})
			add(fmt.Sprintf("shuffle/%v/%d", eq, r), 3, func(t *T) {
				for i, rows := range []int{1, 2, 3, 20, 101, 130} {
					c21Shuffle(t, rows, 1+(i+r)%5, 3, eq)
				}
			})
			for i, n := range []int{1, 2, 3, 5, 7} {
				i, n := i, n
				add(fmt.Sprintf("ks/%d/%v/%d", n, eq, r), 1.5, func(t *T) {
					for k, kind := range treeKinds {
						c21KSRun(t, netCase{n: n, kind: kind, size: []int{1, 3, 30, 101, 12}[(i+k+r)%5], sched: schedModes[(i+k)%len(schedModes)], perm: k%2 == 0}, 3, eq)
					}
				})
			}
		}
		for i, n := range []int{1, 2, 3, 5} {
			i, n := i, n
			add(fmt.Sprintf("shuf/%d/%d", n, r), 2, func(t *T) {
				for k, kind := range treeKinds[:3] {
					c21ShuffleRun(t, netCase{n: n, kind: kind, size: []int{2, 30, 11, 105}[(i+k+r)%4], sched: schedModes[(i+k)%len(schedModes)]}, 1+(i+k)%3, 2)
				}
			})
		}
		for _, n := range []int{2, 4} {
			n := n
			add(fmt.Sprintf("padding/%d/%d", n, r), 1, func(t *T) { c21Padding(t, n, 3) })
		}
		for i, n := range []int{1, 2, 3, 5, 7} {
			i, n := i, n
			add(fmt.Sprintf("tags/%d/%d", n, r), 1, func(t *T) {
				for k, kind := range treeKinds {
					c21Tags(t, netCase{n: n, kind: kind, size: 40, sched: schedModes[(i+k)%len(schedModes)]}, k%2 == 0)
				}
			})
		}
		// surveys
		shapes := []surveyShape{
			{sums: 2, where: 1, groups: 1, pred: true, mode: "enc", rows: 3, subs: 5},
			{sums: 1, where: 0, groups: 0, count: true, mode: "enc", rows: 4, subs: 4},
			{sums: 3, where: 2, groups: 2, pred: true, cross: true, mode: "enc", rows: 2, subs: 6, proofs: true},
			{sums: 1, where: 2, groups: 1, pred: true, count: true, mode: "enc", rows: 3, subs: 4, one: true},
			{sums: 2, where: 1, groups: 1, pred: true, mode: "mixed", rows: 3, subs: 5},
			{sums: 2, where: 1, groups: 2, pred: true, mode: "per-row", rows: 3, subs: 5, count: true},
			{sums: 2, where: 0, groups: 1, mode: "groupclear", rows: 3, subs: 4},
			{sums: 2, where: 1, groups: 1, pred: true, mode: "sumclear", rows: 3, subs: 4},
		}
		for i, sh := range shapes {
			sh := sh
			n := 2 + (i+r)%4
			add(fmt.Sprintf("wire/%d/n%d/%d", i, n, r), 5, func(t *T) { c21Wire(t, n, sh, 2) })
		}
	}
	return out
}

// c21Padding aggregates groups with different numbers of values: what the
// servers add to send vectors of one size is encrypted like the rest.
func c21Padding(t *T, n, runs int) {
	nc := netCase{n: n, kind: "star", size: 4, sched: "jitter"}
	cl, ro, tr := nc.build(t)
	what := fmt.Sprintf("collective aggregation of groups of different sizes, %s", nc)
	type sent struct {
		l *protocolsunlynx.CADBLengthMessage
		d []byte
	}
	var mu sync.Mutex
	by := map[string]*sent{}
	s := newSched(t.R, nc.sched, func(proto string, info *onet.OverlayMsg, msg interface{}, buf []byte) {
		id := fmt.Sprint(info.TreeNodeInfo.From.RoundID, info.TreeNodeInfo.From.TreeNodeID)
		mu.Lock()
		defer mu.Unlock()
		if by[id] == nil {
			by[id] = &sent{}
		}
		switch m := msg.(type) {
		case *protocolsunlynx.CADBLengthMessage:
			c := *m
			by[id].l = &c
		case *protocolsunlynx.ChildAggregatedDataBytesMessage:
			by[id].d = append([]byte{}, m.Data...)
		}
	})
	for r := 0; r < runs; r++ {
		data := map[network.ServerIdentityID]map[libunlynx.GroupingKey]libunlynx.FilteredResponse{}
		for i, si := range ro.List {
			m := map[libunlynx.GroupingKey]libunlynx.FilteredResponse{}
			for g := 0; g < 5; g++ {
				m[libunlynx.GroupingKey(fmt.Sprintf("group-%02d-%02d", i, g))] = libunlynx.FilteredResponse{AggregatingAttributes: encVec(ro.Aggregate, randInts(t.R, 1+g%4, 9))}
			}
			data[si.ID] = m
		}
		pi := cl.create("CollectiveAggregation", tr, func(tni *onet.TreeNodeInstance, pi onet.ProtocolInstance) {
			m := data[tni.ServerIdentity().ID]
			pi.(*protocolsunlynx.CollectiveAggregationProtocol).GroupedData = &m
		})
		p := pi.(*protocolsunlynx.CollectiveAggregationProtocol)
		must(p.Start())
		<-p.FeedbackChannel
	}
	sig := s.done(t)
	mu.Lock()
	defer mu.Unlock()
	var ids []string
	for id := range by {
		ids = append(ids, id)
	}
	sortStrings(ids)
	for _, id := range ids {
		x := by[id]
		if x.l == nil || x.d == nil {
			continue
		}
		var m protocolsunlynx.ChildAggregatedDataMessage
		must(m.FromBytes(x.d, x.l.GacbLength, x.l.AabLength, x.l.DtbLength))
		for _, g := range m.ChildData {
			randPool.add(t, what, ksOf(g.Fr.AggregatingAttributes))
		}
		t.Count("messages_decoded", 1)
	}
	t.Nontrivial("padding/%s/%s", nc, sig)
}
