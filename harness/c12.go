package main

import (
	"bytes"
	"fmt"
	"strings"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxaddrm "github.com/ldsec/unlynx/lib/add_rm"
	libunlynxaggr "github.com/ldsec/unlynx/lib/aggregation"
	libunlynxdetertag "github.com/ldsec/unlynx/lib/deterministic_tag"
	libunlynxkeyswitch "github.com/ldsec/unlynx/lib/key_switch"
	libunlynxshuffle "github.com/ldsec/unlynx/lib/shuffle"
	"go.dedis.ch/kyber/v3"
)

func init() {
	register(&Check{
		ID:          "C12",
		Rule:        "a case performs a step honestly (key switch, shuffle with and without precomputed table, tag addition, tag creation, aggregation, adding and removing a server) on generated ciphertexts (fresh, clear, null, repeated; 0 to several hundreds), has the system prove it, and verifies the proof element by element and as a list at percentages from 0 to 1, before and after a trip through bytes; all inputs are compared with snapshots; an evaluation is one proved list, non-trivial when it has an element (distinct by kind, shape and kind of values)",
		Assumptions: []string{"proof kinds without an encoder of their own (tag, add/remove) go through the binary encoding of their points"},
		Cases:       c12Cases,
	})
}

// proved is a list of proofs made honestly, with what a verifier does with it.
type proved struct {
	kind   string
	n      int
	list   func(pct float64) bool
	each   func(i int) bool
	again  func() (*proved, error) // after encoding and decoding
	inputs func() string           // digest of everything the prover was given
	proof  func() string           // digest of what the proofs contain
}

// proofInputs are the ciphertexts of one list.
func proofInputs(t *T, pub kyber.Point, n int, vals string) (libunlynx.CipherVector, []int64) {
	ms := mixedInts(t, n)
	cv := make(libunlynx.CipherVector, n)
	for i := range cv {
		how := vals
		if vals == "mixed" {
			how = []string{"fresh", "clear", "null", "repeat"}[t.R.Intn(4)]
		}
		switch {
		case how == "clear":
			cv[i] = libunlynx.IntToCipherText(ms[i])
		case how == "null":
			cv[i], ms[i] = *libunlynx.NewCipherText(), 0
		case how == "repeat" && i > 0:
			j := t.R.Intn(i)
			cv[i], ms[i] = cloneCT(cv[j]), ms[j]
		default:
			cv[i] = encWith(pub, ms[i])
		}
	}
	return cv, ms
}

func recode(p kyber.Point) kyber.Point {
	b, err := p.MarshalBinary()
	must(err)
	q := libunlynx.SuiTe.Point()
	must(q.UnmarshalBinary(b))
	return q
}

func recodeCT(c libunlynx.CipherText) libunlynx.CipherText {
	return libunlynx.CipherText{K: recode(c.K), C: recode(c.C)}
}

func digest(parts ...interface{}) string {
	var b strings.Builder
	for _, p := range parts {
		switch x := p.(type) {
		case kyber.Point:
			b.WriteString(ps(x))
		case kyber.Scalar:
			b.WriteString(x.String())
		case []kyber.Point:
			for _, y := range x {
				b.WriteString(ps(y))
			}
		case []kyber.Scalar:
			for _, y := range x {
				b.WriteString(y.String())
			}
		case libunlynx.CipherText:
			b.WriteString(ctBytes(&x))
		case libunlynx.CipherVector:
			b.WriteString(vecBytes(x))
		case []libunlynx.CipherVector:
			for _, y := range x {
				b.WriteString(fmt.Sprint(len(y)) + vecBytes(y))
			}
		default:
			b.WriteString(fmt.Sprint(x))
		}
		b.WriteString("/")
	}
	return b.String()
}

// --- the steps -------------------------------------------------------------

type ksStep struct {
	k         kyber.Scalar
	K, Q      kyber.Point
	rbs       []kyber.Point
	ks2s, neg []kyber.Point
	vis       []kyber.Scalar
}

func newKSStep(t *T, n int, vals string) *ksStep {
	s := &ksStep{}
	s.k, s.K = newKey()
	_, s.Q = newKey()
	cv, _ := proofInputs(t, s.K, n, vals)
	for _, c := range cv {
		s.rbs = append(s.rbs, c.K)
	}
	_, s.ks2s, s.neg, s.vis = libunlynxkeyswitch.KeySwitchSequence(s.Q, s.rbs, s.k)
	return s
}

func (s *ksStep) prove() (libunlynxkeyswitch.PublishedKSListProof, error) {
	return libunlynxkeyswitch.KeySwitchListProofCreation(s.K, s.Q, s.k, s.ks2s, s.neg, s.vis)
}

func ksProved(l libunlynxkeyswitch.PublishedKSListProof, s *ksStep) *proved {
	p := &proved{kind: "ks", n: len(l.List)}
	p.list = func(pct float64) bool { return libunlynxkeyswitch.KeySwitchListProofVerification(l, pct) }
	p.each = func(i int) bool { return libunlynxkeyswitch.KeySwitchProofVerification(l.List[i]) }
	p.again = func() (*proved, error) {
		b, err := l.ToBytes()
		if err != nil {
			return nil, err
		}
		var m libunlynxkeyswitch.PublishedKSListProof
		if err := m.FromBytes(b); err != nil {
			return nil, err
		}
		return ksProved(m, s), nil
	}
	p.inputs = func() string { return digest(s.K, s.Q, s.k, s.ks2s, s.neg, s.vis, s.rbs) }
	p.proof = func() string {
		d := ""
		for _, x := range l.List {
			d += digest(x.K, x.ViB, x.Ks2, x.RbNeg, x.Q, x.Proof)
		}
		return d
	}
	return p
}

type shufStep struct {
	g, h     kyber.Point
	in, out  []libunlynx.CipherVector
	pi       []int
	beta     [][]kyber.Scalar
	sk       kyber.Scalar
	rowsVals [][]int64
}

func newShufStep(t *T, rows, width int, vals, pre string) *shufStep {
	s := &shufStep{g: libunlynx.SuiTe.Point().Base()}
	if pre == "generator" {
		_, s.g = newKey()
	}
	s.sk, s.h = newKey()
	for i := 0; i < rows; i++ {
		cv, ms := proofInputs(t, s.h, width, vals)
		if vals == "mixed" && i > 0 && t.R.Intn(4) == 0 {
			j := t.R.Intn(i)
			cv, ms = cloneVec(s.in[j]), s.rowsVals[j]
		}
		s.in, s.rowsVals = append(s.in, cv), append(s.rowsVals, ms)
	}
	var table []libunlynxshuffle.CipherVectorScalar
	if pre != "" && width > 0 {
		table = libunlynxshuffle.CreatePrecomputedRandomize(s.g, s.h, libunlynx.SuiTe.RandomStream(), width, 4)
	}
	s.out, s.pi, s.beta = libunlynxshuffle.ShuffleSequence(s.in, s.g, s.h, table)
	return s
}

func (s *shufStep) prove() (libunlynxshuffle.PublishedShufflingProof, error) {
	return libunlynxshuffle.ShuffleProofCreation(s.in, s.out, s.g, s.h, s.beta, s.pi)
}

func (s *shufStep) digest() string {
	d := digest(s.g, s.h, s.in, s.out, s.pi)
	for _, b := range s.beta {
		d += digest(b)
	}
	return d
}

func shufProved(l libunlynxshuffle.PublishedShufflingListProof, seed kyber.Point, steps []*shufStep) *proved {
	p := &proved{kind: "shuffle", n: len(l.List)}
	p.list = func(pct float64) bool { return libunlynxshuffle.ShuffleListProofVerification(l, seed, pct) }
	p.each = func(i int) bool { return libunlynxshuffle.ShuffleProofVerification(l.List[i], seed) }
	p.again = func() (*proved, error) {
		var m libunlynxshuffle.PublishedShufflingListProof
		for _, x := range l.List {
			b, err := x.ToBytes()
			if err != nil {
				return nil, err
			}
			var y libunlynxshuffle.PublishedShufflingProof
			if err := y.FromBytes(b); err != nil {
				return nil, err
			}
			m.List = append(m.List, y)
		}
		return shufProved(m, seed, steps), nil
	}
	p.inputs = func() string {
		d := ""
		for _, s := range steps {
			d += s.digest()
		}
		return d
	}
	p.proof = func() string {
		d := ""
		for _, x := range l.List {
			d += digest(x.OriginalList, x.ShuffledList, x.G, x.H, x.HashProof)
		}
		return d
	}
	return p
}

type tagStep struct {
	k, s     kyber.Scalar
	K        kyber.Point
	bef, aft libunlynx.CipherVector
}

func newTagStep(t *T, n int, vals string) *tagStep {
	s := &tagStep{}
	s.k, s.K = newKey()
	s.s, _ = newKey()
	s.bef, _ = proofInputs(t, s.K, n, vals)
	s.aft = libunlynxdetertag.DeterministicTagSequence(s.bef, s.k, s.s)
	return s
}

func (s *tagStep) prove() (libunlynxdetertag.PublishedDDTCreationListProof, error) {
	return libunlynxdetertag.DeterministicTagCrListProofCreation(s.bef, s.aft, s.K, s.k, s.s)
}

func tagProved(l libunlynxdetertag.PublishedDDTCreationListProof, s *tagStep) *proved {
	p := &proved{kind: "tag", n: len(l.List)}
	p.list = func(pct float64) bool { return libunlynxdetertag.DeterministicTagCrListProofVerification(l, pct) }
	p.each = func(i int) bool {
		return libunlynxdetertag.DeterministicTagCrProofVerification(l.List[i], l.K, l.SB)
	}
	p.again = func() (*proved, error) {
		m := libunlynxdetertag.PublishedDDTCreationListProof{K: recode(l.K), SB: recode(l.SB)}
		for _, x := range l.List {
			m.List = append(m.List, libunlynxdetertag.PublishedDDTCreationProof{Proof: append([]byte{}, x.Proof...), Ciminus11Si: recode(x.Ciminus11Si), CTbef: recodeCT(x.CTbef), CTaft: recodeCT(x.CTaft)})
		}
		return tagProved(m, s), nil
	}
	p.inputs = func() string { return digest(s.K, s.k, s.s, s.bef, s.aft) }
	p.proof = func() string {
		d := digest(l.K, l.SB)
		for _, x := range l.List {
			d += digest(x.Proof, x.Ciminus11Si, x.CTbef, x.CTaft)
		}
		return d
	}
	return p
}

type addStep struct {
	c1, c2, r []kyber.Point
	s         []kyber.Scalar
}

func newAddStep(t *T, n int, vals string) *addStep {
	s := &addStep{}
	_, pub := newKey()
	sec, secB := newKey()
	cv, _ := proofInputs(t, pub, n, vals)
	for _, c := range cv {
		if vals == "mixed" && t.R.Intn(3) == 0 {
			sec, secB = newKey()
		}
		s.c1, s.s, s.c2 = append(s.c1, c.C), append(s.s, sec), append(s.c2, secB)
		s.r = append(s.r, libunlynx.SuiTe.Point().Add(c.C, secB))
	}
	return s
}

func (s *addStep) prove() (libunlynxdetertag.PublishedDDTAdditionListProof, error) {
	return libunlynxdetertag.DeterministicTagAdditionListProofCreation(s.c1, s.s, s.c2, s.r)
}

func addProved(l libunlynxdetertag.PublishedDDTAdditionListProof, s *addStep) *proved {
	p := &proved{kind: "tag-addition", n: len(l.List)}
	p.list = func(pct float64) bool { return libunlynxdetertag.DeterministicTagAdditionListProofVerification(l, pct) }
	p.each = func(i int) bool { return libunlynxdetertag.DeterministicTagAdditionProofVerification(l.List[i]) }
	p.again = func() (*proved, error) {
		var m libunlynxdetertag.PublishedDDTAdditionListProof
		for _, x := range l.List {
			m.List = append(m.List, libunlynxdetertag.PublishedDDTAdditionProof{C1: recode(x.C1), C2: recode(x.C2), R: recode(x.R), Proof: append([]byte{}, x.Proof...)})
		}
		return addProved(m, s), nil
	}
	p.inputs = func() string { return digest(s.c1, s.s, s.c2, s.r) }
	p.proof = func() string {
		d := ""
		for _, x := range l.List {
			d += digest(x.C1, x.C2, x.R, x.Proof)
		}
		return d
	}
	return p
}

type aggStep struct {
	data []libunlynx.CipherVector
	res  libunlynx.CipherVector
}

// newAggStep sums n lists of up to width ciphertexts.
func newAggStep(t *T, n, width int, vals string) *aggStep {
	s := &aggStep{}
	_, pub := newKey()
	for i := 0; i < n; i++ {
		w := width
		if vals == "mixed" && width > 1 {
			w = 1 + t.R.Intn(width)
		}
		cv, _ := proofInputs(t, pub, w, vals)
		sum := *libunlynx.NewCipherText()
		for _, c := range cv {
			sum = libunlynx.CipherText{K: libunlynx.SuiTe.Point().Add(sum.K, c.K), C: libunlynx.SuiTe.Point().Add(sum.C, c.C)}
		}
		s.data, s.res = append(s.data, cv), append(s.res, sum)
	}
	return s
}

func (s *aggStep) prove() libunlynxaggr.PublishedAggregationListProof {
	return libunlynxaggr.AggregationListProofCreation(s.data, s.res)
}

func aggProved(l libunlynxaggr.PublishedAggregationListProof, s *aggStep) *proved {
	p := &proved{kind: "aggregation", n: len(l.List)}
	p.list = func(pct float64) bool { return libunlynxaggr.AggregationListProofVerification(l, pct) }
	p.each = func(i int) bool { return libunlynxaggr.AggregationProofVerification(l.List[i]) }
	p.again = func() (*proved, error) {
		b, err := l.ToBytes()
		if err != nil {
			return nil, err
		}
		var m libunlynxaggr.PublishedAggregationListProof
		if err := m.FromBytes(b); err != nil {
			return nil, err
		}
		return aggProved(m, s), nil
	}
	p.inputs = func() string { return digest(s.data, s.res) }
	p.proof = func() string {
		d := ""
		for _, x := range l.List {
			d += digest(x.Data, x.AggregationResult)
		}
		return d
	}
	return p
}

type armStep struct {
	k        kyber.Scalar
	K        kyber.Point
	add      bool
	bef, aft libunlynx.CipherVector
}

func newArmStep(t *T, n int, vals string, add bool) *armStep {
	s := &armStep{add: add}
	s.k, s.K = newKey()
	_, pub := newKey()
	s.bef, _ = proofInputs(t, pub, n, vals)
	for _, c := range s.bef {
		d := libunlynx.SuiTe.Point().Mul(s.k, c.K)
		a := libunlynx.CipherText{K: c.K, C: libunlynx.SuiTe.Point().Add(c.C, d)}
		if !add {
			a.C = libunlynx.SuiTe.Point().Sub(c.C, d)
		}
		s.aft = append(s.aft, a)
	}
	return s
}

func (s *armStep) prove() (libunlynxaddrm.PublishedAddRmListProof, error) {
	return libunlynxaddrm.AddRmListProofCreation(s.bef, s.aft, s.K, s.k, s.add)
}

func armProved(l libunlynxaddrm.PublishedAddRmListProof, s *armStep) *proved {
	p := &proved{kind: fmt.Sprint("add-rm-", s.add), n: len(l.List)}
	p.list = func(pct float64) bool { return libunlynxaddrm.AddRmListProofVerification(l, pct) }
	p.each = func(i int) bool { return libunlynxaddrm.AddRmProofVerification(l.List[i], l.Krm, l.ToAdd) }
	p.again = func() (*proved, error) {
		m := libunlynxaddrm.PublishedAddRmListProof{Krm: recode(l.Krm), ToAdd: l.ToAdd}
		for _, x := range l.List {
			m.List = append(m.List, libunlynxaddrm.PublishedAddRmProof{Proof: append([]byte{}, x.Proof...), CtBef: recodeCT(x.CtBef), CtAft: recodeCT(x.CtAft), RB: recode(x.RB)})
		}
		return armProved(m, s), nil
	}
	p.inputs = func() string { return digest(s.k, s.K, s.bef, s.aft) }
	p.proof = func() string {
		d := digest(l.Krm, l.ToAdd)
		for _, x := range l.List {
			d += digest(x.Proof, x.CtBef, x.CtAft, x.RB)
		}
		return d
	}
	return p
}

// judgeProved demands that everything verifies and nothing was altered.
func judgeProved(t *T, p *proved, before, what string, full bool) {
	key := p.kind
	t.Check(p.inputs() == before, key+":inputs", "%s: creating the proofs altered an input", what)
	pre := p.proof()
	for round, name := range []string{"fresh", "decoded", "decoded twice"} {
		if round == 2 && !full {
			break
		}
		if round > 0 {
			var q *proved
			var err error
			if pn := noPanic(func() { q, err = p.again() }); pn != "" || err != nil {
				t.Fail(key+":encode", "%s: an honest proof cannot be encoded and decoded: %v %s", what, err, pn)
				return
			}
			p = q
			if !t.Check(p.proof() == pre, key+":encode", "%s: the proof differs after encoding and decoding", what) {
				return
			}
		}
		pcts := []float64{0, 0.5, 1}
		if full {
			pcts = append(pcts, 0.001, 0.01, 0.1, 0.25, 1.0/3, 0.75, 0.9, 0.99, 0.999, t.R.Float64())
			if p.n > 0 {
				pcts = append(pcts, 1/float64(p.n), 1-1/float64(p.n))
			}
		}
		for _, pct := range pcts {
			ok := false
			pn := noPanic(func() { ok = p.list(pct) })
			t.Count("verifications", 1)
			if !t.Check(pn == "", key+":panic", "%s: verifying %v of the (%s) list crashes: %s", what, pct, name, pn) {
				return
			}
			if !t.Check(ok, key+":list", "%s: the (%s) list is rejected at %v", what, name, pct) {
				return
			}
		}
		step := 1
		if p.n > 20 && !full {
			step = p.n / 20
		}
		for i := 0; i < p.n; i += step {
			ok := false
			pn := noPanic(func() { ok = p.each(i) })
			t.Count("verifications", 1)
			if !t.Check(pn == "" && ok, key+":single", "%s: proof %d of the (%s) list is rejected %s", what, i, name, pn) {
				return
			}
		}
		t.Check(p.proof() == pre, key+":altered", "%s: verifying altered the proof", what)
	}
	t.Check(p.inputs() == before, key+":inputs", "%s: verifying altered an input", what)
}

// proveKind performs a step of the kind and proves it.
func proveKind(t *T, kind string, n int, vals string) (*proved, string) {
	var p *proved
	var before string
	var err error
	switch kind {
	case "ks":
		s := newKSStep(t, n, vals)
		before = ksProved(libunlynxkeyswitch.PublishedKSListProof{}, s).inputs()
		var l libunlynxkeyswitch.PublishedKSListProof
		l, err = s.prove()
		p = ksProved(l, s)
	case "tag":
		s := newTagStep(t, n, vals)
		before = tagProved(libunlynxdetertag.PublishedDDTCreationListProof{}, s).inputs()
		var l libunlynxdetertag.PublishedDDTCreationListProof
		l, err = s.prove()
		p = tagProved(l, s)
	case "tag-addition":
		s := newAddStep(t, n, vals)
		before = addProved(libunlynxdetertag.PublishedDDTAdditionListProof{}, s).inputs()
		var l libunlynxdetertag.PublishedDDTAdditionListProof
		l, err = s.prove()
		p = addProved(l, s)
	case "aggregation":
		s := newAggStep(t, n, 1+t.R.Intn(5), vals)
		before = aggProved(libunlynxaggr.PublishedAggregationListProof{}, s).inputs()
		p = aggProved(s.prove(), s)
	case "add", "remove":
		s := newArmStep(t, n, vals, kind == "add")
		before = armProved(libunlynxaddrm.PublishedAddRmListProof{}, s).inputs()
		var l libunlynxaddrm.PublishedAddRmListProof
		l, err = s.prove()
		p = armProved(l, s)
	}
	if err != nil {
		t.Fail(p.kind+":create", "%d elements (%s): an honest step cannot be proved: %v", n, vals, err)
		return nil, ""
	}
	t.Check(p.n == n, p.kind+":length", "%d elements (%s): %d proofs", n, vals, p.n)
	return p, before
}

func c12List(t *T, kind string, lens []int, full bool) {
	for _, n := range lens {
		for _, vals := range []string{"fresh", "mixed", "clear", "repeat"} {
			if n > 20 && vals != "mixed" && !full {
				continue
			}
			what := fmt.Sprintf("%s of %d (%s)", kind, n, vals)
			var p *proved
			var before string
			if pn := noPanic(func() { p, before = proveKind(t, kind, n, vals) }); pn != "" {
				t.Fail(kind+":create", "%s: proving crashes: %s", what, pn)
				continue
			}
			if p == nil {
				continue
			}
			if n > 0 {
				t.Nontrivial("%s/%d/%s", kind, n, vals)
			} else {
				t.Trivial()
			}
			t.Seen("lengths", fmt.Sprint(kind, n))
			judgeProved(t, p, before, what, full || n <= 5)
		}
	}
}

func c12Shuffle(t *T, shapes [][2]int, pre string, full bool) {
	for _, sh := range shapes {
		for _, vals := range []string{"fresh", "mixed", "clear"} {
			if sh[0]*sh[1] > 60 && vals != "mixed" && !full {
				continue
			}
			what := fmt.Sprintf("shuffle of %d rows of %d (%s, table %q)", sh[0], sh[1], vals, pre)
			s := newShufStep(t, sh[0], sh[1], vals, pre)
			before := s.digest()
			var prf libunlynxshuffle.PublishedShufflingProof
			var err error
			if pn := noPanic(func() { prf, err = s.prove() }); pn != "" || err != nil {
				t.Fail("shuffle:create", "%s: an honest shuffle cannot be proved: %v %s", what, err, pn)
				continue
			}
			if sh[0] > 1 {
				t.Nontrivial("shuffle/%d/%d/%s/%s", sh[0], sh[1], vals, pre)
			} else {
				t.Trivial()
			}
			t.Seen("lengths", fmt.Sprint("shuffle", sh))
			judgeProved(t, shufProved(libunlynxshuffle.PublishedShufflingListProof{List: []libunlynxshuffle.PublishedShufflingProof{prf}}, s.h, []*shufStep{s}), before, what, full)
			t.Check(digest(prf.OriginalList) == digest(s.in) && digest(prf.ShuffledList) == digest(s.out), "shuffle:statement", "%s: the proof is about other lists", what)
		}
	}
}

// c12ShuffleLists proves several shuffles under one key as a list.
func c12ShuffleLists(t *T, n int) {
	var steps []*shufStep
	var in, out [][]libunlynx.CipherVector
	var gs, hs []kyber.Point
	var betas [][][]kyber.Scalar
	var pis [][]int
	sk, h := newKey()
	for i := 0; i < n; i++ {
		s := &shufStep{g: libunlynx.SuiTe.Point().Base(), h: h, sk: sk}
		rows, width := 1+t.R.Intn(5), 1+t.R.Intn(3)
		for r := 0; r < rows; r++ {
			cv, _ := proofInputs(t, h, width, "mixed")
			s.in = append(s.in, cv)
		}
		s.out, s.pi, s.beta = libunlynxshuffle.ShuffleSequence(s.in, s.g, s.h, nil)
		steps = append(steps, s)
		in, out = append(in, s.in), append(out, s.out)
		gs, hs, betas, pis = append(gs, s.g), append(hs, s.h), append(betas, s.beta), append(pis, s.pi)
	}
	empty := shufProved(libunlynxshuffle.PublishedShufflingListProof{}, h, steps)
	before := empty.inputs()
	var l libunlynxshuffle.PublishedShufflingListProof
	var err error
	if pn := noPanic(func() { l, err = libunlynxshuffle.ShuffleListProofCreation(in, out, gs, hs, betas, pis) }); pn != "" || err != nil {
		t.Fail("shuffle:create", "a list of %d honest shuffles cannot be proved: %v %s", n, err, pn)
		return
	}
	if n > 0 {
		t.Nontrivial("shuffles/%d", n)
	} else {
		t.Trivial()
	}
	judgeProved(t, shufProved(l, h, steps), before, fmt.Sprintf("list of %d shuffles", n), n <= 5)
}

// c12Real proves steps on ciphertexts that went through other steps: the
// contributions of several servers to one key switch, one tag, and the
// formatted aggregation of responses.
func c12Real(t *T) {
	n := 1 + t.R.Intn(4)
	var sks []kyber.Scalar
	coll := libunlynx.SuiTe.Point().Null()
	for i := 0; i < n; i++ {
		sk, pk := newKey()
		sks, coll = append(sks, sk), libunlynx.SuiTe.Point().Add(coll, pk)
	}
	ms := mixedInts(t, 7)
	cv := t.encVec(coll, ms)
	// tagging, server after server
	cur := cv
	for i := range sks {
		sec, _ := newKey()
		st := &tagStep{k: sks[i], s: sec, K: libunlynx.SuiTe.Point().Mul(sks[i], nil), bef: cur}
		st.aft = libunlynxdetertag.DeterministicTagSequence(cur, sks[i], sec)
		before := digest(st.K, st.k, st.s, st.bef, st.aft)
		l, err := st.prove()
		t.Check(err == nil, "tag:create", "server %d of %d: %v", i, n, err)
		judgeProved(t, tagProved(l, st), before, fmt.Sprintf("tag of server %d of %d", i, n), false)
		// and the one-call form
		key, lp, err := libunlynxdetertag.CipherVectorToDeterministicTag(cur, sks[i], sec, st.K, true)
		if t.Check(err == nil && lp != nil, "tag:create", "tag with proof: %v", err) {
			t.Check(libunlynxdetertag.DeterministicTagCrListProofVerification(*lp, 1), "tag:one-call", "the proof made along with a tag is rejected")
			key2, _, err := libunlynxdetertag.CipherVectorToDeterministicTag(cur, sks[i], sec, st.K, false)
			t.Check(err == nil && key == key2, "tag:one-call", "tag with proof differs from the one without: %v", err)
		}
		cur = st.aft
	}
	t.Nontrivial("chain/%d", n)
	// aggregation proofs of responses
	groups := 1 + t.R.Intn(3)
	width := 1 + t.R.Intn(4)
	cvMap := map[libunlynx.GroupingKey][]libunlynx.CipherVector{}
	res := map[libunlynx.GroupingKey]libunlynx.FilteredResponse{}
	for i := 0; i < 12; i++ {
		k := libunlynx.GroupingKey(fmt.Sprintf("g%d", t.R.Intn(groups)))
		r := libunlynx.FilteredResponseDet{DetTagGroupBy: k, Fr: libunlynx.FilteredResponse{AggregatingAttributes: t.encVec(coll, mixedInts(t, width))}}
		libunlynx.AddInMap(res, k, r.Fr)
		r.FormatAggregationProofs(cvMap)
	}
	for k, data := range cvMap {
		st := &aggStep{data: data, res: res[k].AggregatingAttributes}
		before := digest(st.data, st.res)
		judgeProved(t, aggProved(st.prove(), st), before, "aggregation of formatted responses", false)
		t.Check(len(data) == width, "aggregation:format", "%d lists for %d attributes", len(data), width)
	}
	t.Nontrivial("formatted/%d/%d", groups, width)
}

func c12Cases(tier string, seed int64) []Case {
	var out []Case
	full := tier == "thorough"
	lens := []int{0, 1, 2, 3, 5, 8, 99, 100, 101, 150}
	if full {
		lens = []int{0, 1, 2, 3, 4, 5, 7, 13, 50, 99, 100, 101, 199, 200, 201, 250, 333}
	}
	for _, kind := range []string{"ks", "tag", "tag-addition", "aggregation", "add", "remove"} {
		kind := kind
		for _, n := range lens {
			n := n
			out = append(out, Case{Name: fmt.Sprintf("%s-%d", kind, n), Cost: 0.3 + float64(n)/50, Run: func(t *T) { c12List(t, kind, []int{n}, t.Tier == "thorough") }})
		}
	}
	shapes := [][2]int{{0, 0}, {1, 1}, {1, 4}, {2, 1}, {2, 3}, {3, 0}, {3, 2}, {5, 5}, {7, 1}, {12, 4}, {30, 3}, {101, 2}, {4, 101}}
	if full {
		shapes = append(shapes, [2]int{0, 3}, [2]int{1, 0}, [2]int{99, 3}, [2]int{100, 1}, [2]int{201, 2}, [2]int{3, 201}, [2]int{50, 10}, [2]int{6, 7}, [2]int{16, 16})
	}
	for _, sh := range shapes {
		sh := sh
		for _, pre := range []string{"", "table", "generator"} {
			pre := pre
			if pre != "" && (sh[1] == 0 || sh[0] == 0) {
				continue
			}
			out = append(out, Case{Name: fmt.Sprintf("shuffle-%dx%d-%s", sh[0], sh[1], pre), Cost: 0.3 + float64(sh[0]*sh[1])/40, Run: func(t *T) { c12Shuffle(t, [][2]int{sh}, pre, t.Tier == "thorough") }})
		}
	}
	for _, n := range []int{0, 1, 2, 5, 20, 101} {
		n := n
		if n == 101 && !full {
			continue
		}
		out = append(out, Case{Name: fmt.Sprint("shuffles-", n), Cost: 0.2 + float64(n)/10, Run: func(t *T) { c12ShuffleLists(t, n) }})
	}
	reps := 3
	if full {
		reps = 40
	}
	for i := 0; i < reps; i++ {
		out = append(out, Case{Name: fmt.Sprint("chain-", i), Cost: 0.5, Run: c12Real})
	}
	if full {
		for i := 0; i < 60; i++ {
			out = append(out, Case{Name: fmt.Sprint("random-", i), Cost: 4, Run: func(t *T) {
				for r := 0; r < 6; r++ {
					kind := []string{"ks", "tag", "tag-addition", "aggregation", "add", "remove"}[t.R.Intn(6)]
					c12List(t, kind, []int{t.R.Intn(130)}, false)
					c12Shuffle(t, [][2]int{{1 + t.R.Intn(40), 1 + t.R.Intn(8)}}, []string{"", "table", "generator"}[t.R.Intn(3)], false)
				}
			}})
		}
	}
	return out
}

var _ = bytes.Equal
