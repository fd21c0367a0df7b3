package main

import (
	"fmt"
	"sort"
	"strings"
	"sync"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxshuffle "github.com/ldsec/unlynx/lib/shuffle"
	protocolsunlynx "github.com/ldsec/unlynx/protocols"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
)

func init() {
	regWrapped("Shuffling", protocolsunlynx.NewShufflingProtocol)
	register(&Check{
		ID:    "C06",
		Rule:  "a case runs the collective shuffle over real servers (1-8, five tree shapes, permuted rosters) or the local shuffle, with 0-250 rows of 0-12 columns, with and without precomputed tables, with messages delayed; the output and the content of every hop on the wire are opened and compared as multisets of rows with the input, every ciphertext component with those before it; an evaluation is one shuffle, non-trivial with at least two rows (distinct by configuration and order of messages)",
		Cases: c06Cases,
	})
}

type shufCase struct {
	netCase
	width int
	pre   string // "", exact, wide
	own   bool   // under a collective key other than the roster's
}

func (c shufCase) String() string {
	return fmt.Sprintf("%s, width %d, table %q, own key %v", c.netCase, c.width, c.pre, c.own)
}

func matInts(t *T, rows, width int) [][]int64 {
	m := make([][]int64, rows)
	dup := t.R.Intn(3) == 0
	for i := range m {
		m[i] = mixedInts(t, width)
		if i > 0 && dup && t.R.Intn(3) == 0 {
			copy(m[i], m[t.R.Intn(i)])
		}
	}
	return m
}

func encMat(pk kyber.Point, m [][]int64) []libunlynx.CipherVector {
	out := make([]libunlynx.CipherVector, len(m))
	for i := range m {
		out[i] = encVec(pk, m[i])
	}
	return out
}

func rowStrings(m [][]int64) []string {
	s := make([]string, len(m))
	for i := range m {
		s[i] = fmt.Sprint(m[i])
	}
	return s
}

func openMat(sk kyber.Scalar, m []libunlynx.CipherVector) [][]int64 {
	out := make([][]int64, len(m))
	for i := range m {
		out[i] = openVec(sk, m[i])
	}
	return out
}

func sorted(s []string) []string {
	x := append([]string{}, s...)
	sort.Strings(x)
	return x
}

func sameMultiset(a, b []string) (string, bool) {
	x, y := sorted(a), sorted(b)
	if len(x) != len(y) {
		return fmt.Sprintf("%d rows instead of %d", len(x), len(y)), false
	}
	for i := range x {
		if x[i] != y[i] {
			return fmt.Sprintf("row %s (or %s) is wrong", trim(x[i], 200), trim(y[i], 200)), false
		}
	}
	return "", true
}

// components lists every non-null point of a matrix.
func components(m []libunlynx.CipherVector) map[string]bool {
	s := map[string]bool{}
	null := suite.Point().Null()
	for _, v := range m {
		for i := range v {
			if !v[i].K.Equal(null) {
				s["K"+ps(v[i].K)] = true
			}
			s["C"+ps(v[i].C)] = true
		}
	}
	return s
}

func overlap(a, b map[string]bool) int {
	n := 0
	for k := range a {
		if b[k] {
			n++
		}
	}
	return n
}

func distinctRows(s []string) int {
	m := map[string]bool{}
	for _, x := range s {
		m[x] = true
	}
	return len(m)
}

// judgeShuffle compares one shuffle's input and output.
func judgeShuffle(t *T, sk kyber.Scalar, in [][]int64, inC, out []libunlynx.CipherVector, key, what string, fresh ...bool) {
	for i := range out {
		for j := range out[i] {
			if out[i][j].K == nil || out[i][j].C == nil {
				t.Fail(key+":missing", "%s: row %d column %d is missing", what, i, j)
				return
			}
		}
	}
	o := rowStrings(openMat(sk, out))
	why, ok := sameMultiset(o, rowStrings(in))
	t.Check(ok, key+":rows", "%s: %s", what, why)
	if n := overlap(components(inC), components(out)); n > 0 {
		t.Fail(key+":not-fresh", "%s: %d components of the output occur in the input", what, n)
	}
	t.Count("oracle_checks", 1)
	if len(fresh) > 0 && fresh[0] && ok {
		// what was added to the ciphertexts of the rows whose origin is known
		from, seen := map[string]int{}, map[string]string{}
		for i, r := range rowStrings(in) {
			if _, twice := from[r]; twice {
				from[r] = -1
			} else {
				from[r] = i
			}
		}
		for i, r := range o {
			f := from[r]
			if f < 0 {
				continue
			}
			for j := range out[i] {
				d := ps(suite.Point().Sub(out[i][j].K, inC[f][j].K))
				at := fmt.Sprintf("row %d column %d", i, j)
				if other, twice := seen[d]; twice {
					t.Fail(key+":same-randomness", "%s: %s and %s are re-randomised with the same number", what, other, at)
					break
				}
				seen[d] = at
			}
		}
		t.Count("randomness_compared", int64(len(seen)))
	}
	if distinctRows(o) >= 14 {
		same := strings.Join(o, "") == strings.Join(rowStrings(in), "")
		t.Check(!same, key+":order", "%s: %d distinct rows come out in the order they went in", what, len(o))
	}
}

func table(sc shufCase, key kyber.Point, secret kyber.Scalar) []libunlynxshuffle.CipherVectorScalar {
	b, err := secret.MarshalBinary()
	must(err)
	w := sc.width
	switch sc.pre {
	case "":
		return nil
	case "wide":
		w = 2*sc.width + 1
	case "narrow": // made for smaller rows
		w = sc.width - 1
	case "stale": // made for another collective key
		_, key = newKey()
		w = 2 * sc.width
	case "nolines":
		return []libunlynxshuffle.CipherVectorScalar{}
	}
	return libunlynxshuffle.CreatePrecomputedRandomize(suite.Point().Base(), key, suite.XOF(b), w, 10)
}

func runShuffle(t *T, sc shufCase, cl *cluster, ro *onet.Roster, tr *onet.Tree, watch bool) {
	sk, key := cl.secret(), ro.Aggregate
	if sc.own {
		sk, key = newKey()
	}
	in := matInts(t, sc.size, sc.width)
	if sc.size > 14 && sc.width > 0 {
		for i := range in {
			in[i][0] = int64(i) // distinct rows, so that the order is visible
		}
	}
	inC := t.encMat(key, in)
	snap := matBytes(inC)
	var hops [][]libunlynx.CipherVector
	var mu sync.Mutex
	var hook WireHook
	if watch {
		hook = func(proto string, info *onet.OverlayMsg, msg interface{}, buf []byte) {
			m, ok := msg.(*protocolsunlynx.ShufflingBytesMessage)
			if !ok || len(m.Data) != sc.size*sc.width*64 {
				return
			}
			var mat []libunlynx.CipherVector
			for i := 0; i < sc.size; i++ {
				v := libunlynx.CipherVector{}
				for j := 0; j < sc.width; j++ {
					c := libunlynx.CipherText{K: suite.Point(), C: suite.Point()}
					o := (i*sc.width + j) * 64
					must(c.K.UnmarshalBinary(m.Data[o : o+32]))
					must(c.C.UnmarshalBinary(m.Data[o+32 : o+64]))
					v = append(v, c)
				}
				mat = append(mat, v)
			}
			mu.Lock()
			hops = append(hops, mat)
			mu.Unlock()
		}
	}
	secrets := map[int]kyber.Scalar{}
	for i := 0; i < sc.n; i++ {
		secrets[i], _ = newKey()
	}
	made := 0
	var outs [][]libunlynx.CipherVector
	for rep := 0; rep < 2; rep++ {
		s := newSched(t.R, sc.sched, hook)
		hops, made = nil, 0
		pi := cl.create("Shuffling", tr, func(tni *onet.TreeNodeInstance, pi onet.ProtocolInstance) {
			p := pi.(*protocolsunlynx.ShufflingProtocol)
			if tni.IsRoot() {
				p.ShuffleTarget = &inC
			}
			p.Proofs = sc.proofs
			p.ProofFunc = func(a, b []libunlynx.CipherVector, k kyber.Point, beta [][]kyber.Scalar, pi []int) *libunlynxshuffle.PublishedShufflingProof {
				mu.Lock()
				made++
				mu.Unlock()
				return nil
			}
			if sc.own {
				p.CollectiveKey = key
			}
			p.Precomputed = table(sc, key, secrets[tni.Index()])
		})
		p := pi.(*protocolsunlynx.ShufflingProtocol)
		go func() {
			if e := noPanic(func() { must(p.Start()) }); e != "" {
				t.Fail("start", "%s: %s", sc, e)
				p.FeedbackChannel <- nil
			}
		}()
		out := <-p.FeedbackChannel
		sig := s.done(t)
		if out == nil && sc.size > 0 {
			return
		}
		judgeShuffle(t, sk, in, inC, out, "shuffle", sc.String(), sc.pre == "")
		t.Check(matBytes(inC) == snap, "input-changed", "%s: the shuffle changed its input", sc)
		if sc.proofs {
			settled(&mu, func() bool { return made >= sc.n })
		}
		mu.Lock()
		if watch {
			t.Check(len(hops) == sc.n || sc.size*sc.width == 0, "hops", "%s: %d hops seen", sc, len(hops))
			prev, prevC := in, inC
			for i, h := range hops {
				judgeShuffle(t, sk, prev, prevC, h, "hop", fmt.Sprintf("hop %d of %s", i, sc), sc.pre == "")
				prev, prevC = openMat(sk, h), h
				t.Count("hops_observed", 1)
			}
		}
		if sc.proofs {
			t.Check(made == sc.n, "proof-count", "%s: %d proof calls", sc, made)
		}
		mu.Unlock()
		outs = append(outs, out)
		if sc.size > 1 {
			t.Nontrivial("%v/%s", sc, sig)
		} else {
			t.Trivial()
		}
	}
	if sc.pre == "" && sc.width > 0 && sc.size > 0 {
		n := overlap(components(outs[0]), components(outs[1]))
		t.Check(n == 0, "repeat", "%s: two shuffles of the same list share %d components", sc, n)
	}
}

// c06Local runs the local shuffle many times and looks at the permutations.
func c06Local(t *T, rounds int) {
	sk, pk := newKey()
	for r := 0; r < rounds; r++ {
		rows, width := []int{0, 1, 2, 3, 10, 99, 100, 101}[t.R.Intn(8)], t.R.Intn(5)
		if rows > 50 {
			width = minInt(width, 2)
		}
		sc := shufCase{netCase{size: rows}, width, []string{"", "exact", "wide"}[r%3], false}
		if width == 0 {
			sc.pre = ""
		}
		in := matInts(t, rows, width)
		inC := t.encMat(pk, in)
		snap := matBytes(inC)
		sec, _ := newKey()
		tab := table(sc, pk, sec)
		var out []libunlynx.CipherVector
		var pi []int
		var beta [][]kyber.Scalar
		if p := noPanic(func() { out, pi, beta = libunlynxshuffle.ShuffleSequence(inC, suite.Point().Base(), pk, tab) }); p != "" {
			t.Fail("local:panic", "%s: %s", sc, p)
			continue
		}
		judgeShuffle(t, sk, in, inC, out, "local", sc.String(), sc.pre == "")
		t.Check(matBytes(inC) == snap, "input-changed", "%s: the shuffle changed its input", sc)
		// the returned witness explains the output
		ok := len(pi) == rows && len(beta) == rows
		for i := 0; ok && i < rows; i++ {
			src := pi[i]
			ok = src >= 0 && src < rows && len(beta[src]) >= width
			for j := 0; ok && j < width; j++ {
				ok = suite.Point().Add(inC[src][j].K, suite.Point().Mul(beta[src][j], nil)).Equal(out[i][j].K)
			}
		}
		t.Check(ok, "witness", "%s: the permutation and blinding returned do not explain the output", sc)
		if rows > 1 {
			t.Nontrivial("local/%v/%d", sc, r)
		} else {
			t.Trivial()
		}
	}
	// every permutation of two, three and four rows turns up, and as often as the others
	for m, orders := 2, 2; m <= 4; m, orders = m+1, orders*(m+1) {
		in := make([][]int64, m)
		for i := range in {
			in[i] = []int64{int64(i)}
		}
		inC := t.encMat(pk, in)
		cnt := map[string]int{}
		for i := 0; i < 50*orders; i++ {
			out, _, _ := libunlynxshuffle.ShuffleSequence(inC, suite.Point().Base(), pk, nil)
			cnt[fmt.Sprint(openMat(sk, out))]++
		}
		for k, v := range cnt {
			// expected 50, standard deviation at most 7
			t.Check(v > 8 && v < 100, "biased", "the order %s came out %d times of %d", k, v, 50*orders)
			t.Seen("permutations", k)
		}
		t.Check(len(cnt) == orders, "biased", "only %d of the %d orders came out in %d shuffles", len(cnt), orders, 50*orders)
	}
	// in a longer list, each row goes to each place
	const m, runs = 12, 1200
	in := make([][]int64, m)
	for i := range in {
		in[i] = []int64{int64(i)}
	}
	inC := encMat(pk, in)
	var place [m][m]int
	for i := 0; i < runs; i++ {
		_, pi, _ := libunlynxshuffle.ShuffleSequence(inC, suite.Point().Base(), pk, nil)
		if len(pi) != m {
			t.Fail("witness", "a permutation of %d for %d rows", len(pi), m)
			return
		}
		for to, from := range pi {
			place[to][from]++
		}
	}
	for to := range place {
		for from, v := range place[to] {
			// expected 100, standard deviation 9.6
			t.Check(v > 40 && v < 175, "biased", "row %d of %d went to place %d in %d of %d shuffles", from, m, to, v, runs)
		}
	}
}

func c06Cases(tier string, seed int64) []Case {
	var out []Case
	ns := []int{1, 2, 3, 5, 8}
	rowsL := []int{0, 1, 2, 3, 20, 99, 100, 101, 200}
	if tier == "thorough" {
		ns = []int{1, 2, 3, 4, 5, 6, 7, 8}
	}
	pres := []string{"", "exact", "wide"}
	k := 0
	for _, n := range ns {
		for _, rows := range rowsL {
			widths := []int{[]int{1, 3, 0, 2, 12, 1, 2}[k%7]}
			if tier == "thorough" {
				widths = []int{0, 1, 3, 12}
			}
			for _, w := range widths {
				if rows > 50 && w > 3 {
					w = 3
				}
				modes := []string{schedModes[k%len(schedModes)]}
				if tier == "thorough" {
					modes = schedModes
				}
				for _, mo := range modes {
					pre := pres[k%3]
					if w == 0 {
						pre = ""
					}
					sc := shufCase{netCase{n: n, kind: treeKinds[k%len(treeKinds)], size: rows, sched: mo, perm: k%2 == 0, proofs: k%4 == 0}, w, pre, k%6 == 3}
					k++
					out = append(out, Case{Name: fmt.Sprintf("run-%d-%d-%d-%s-%d", n, rows, w, mo, k), Cost: 0.1 + float64(n*rows*w)*0.0008, Run: func(t *T) {
						cl, ro, tr := sc.build(t)
						runShuffle(t, sc, cl, ro, tr, true)
						t.Sample("%v", sc)
					}})
				}
			}
		}
		if n > 2 {
			for rep := 0; rep < map[bool]int{true: 8, false: 1}[tier == "thorough"]; rep++ {
				n := n
				out = append(out, Case{Name: fmt.Sprintf("concurrent-%d-%d", n, rep), Cost: 1.5, Run: func(t *T) {
					cl := getCluster(n)
					used := map[onet.TreeID]bool{}
					var wg sync.WaitGroup
					for i := 0; i < 4; i++ {
						ro, tr := cl.distinctTree(treeKinds[i], t.R, used)
						sc := shufCase{netCase{n: n, kind: treeKinds[i], size: []int{3, 40, 1, 17}[i], sched: "jitter"}, 1 + i, pres[i%3], i == 2}
						wg.Add(1)
						go func() {
							defer wg.Done()
							runShuffle(t.fork(), sc, cl, ro, tr, false)
						}()
					}
					wg.Wait()
				}})
			}
		}
	}
	for i := 0; i < 4; i++ {
		out = append(out, Case{Name: fmt.Sprint("local-", i), Cost: 2, Run: func(t *T) { c06Local(t, map[bool]int{true: 200, false: 24}[t.Tier == "thorough"]) }})
	}
	large := []shufCase{{netCase{n: 2, kind: "line", size: 400, sched: "jitter"}, 2, "", false}, {netCase{n: 3, kind: "star", size: 3, sched: "none"}, 300, "", false}}
	if tier == "thorough" {
		large = append(large, shufCase{netCase{n: 3, kind: "line", size: 3000, sched: "none"}, 1, "", false}, shufCase{netCase{n: 5, kind: "star", size: 270, sched: "jitter"}, 120, "", false}, shufCase{netCase{n: 3, kind: "binary", size: 500, sched: "none", proofs: true}, 2, "", false})
	}
	for _, sc := range large {
		sc := sc
		out = append(out, Case{Name: fmt.Sprintf("large-%d-%d", sc.size, sc.width), Cost: float64(sc.n*sc.size*sc.width) * 0.0008, Run: func(t *T) {
			cl, ro, tr := sc.build(t)
			runShuffle(t, sc, cl, ro, tr, true)
			t.Sample("%v", sc)
		}})
	}
	return out
}
