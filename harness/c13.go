package main

import (
	"fmt"
	"math"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxaddrm "github.com/ldsec/unlynx/lib/add_rm"
	libunlynxaggr "github.com/ldsec/unlynx/lib/aggregation"
	libunlynxdetertag "github.com/ldsec/unlynx/lib/deterministic_tag"
	libunlynxkeyswitch "github.com/ldsec/unlynx/lib/key_switch"
	libunlynxshuffle "github.com/ldsec/unlynx/lib/shuffle"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/kyber/v3/proof"
	shuffleKyber "go.dedis.ch/kyber/v3/shuffle"
)

func init() {
	register(&Check{
		ID:   "C13",
		Rule: "a case makes a list of honest proofs, falsifies one thing (a point, ciphertext, key, aggregate or byte of a proof at one position, the order, number or pairing of entries; or it proves a wrong statement with the real prover, or with a prover of its own that knows the verifier's challenges) and demands that the single proof and the whole list at 100% (and, with enough wrong proofs, at less) are rejected without a crash; an evaluation is one falsification, all non-trivial (distinct by kind, falsification, position and length)",
		Assumptions: []string{
			"a list of independent proofs with a whole proof left out, repeated or moved still only states true facts, for the kinds whose proofs carry their whole statement (key switch, tag, tag addition, add/remove): no rejection is demanded there",
			"provers that exploit the non-interactive proof system of the kyber library itself are out of scope",
		},
		Cases: c13Cases,
	})
}

// rejected demands that neither form of verification accepts or crashes.
func rejected(t *T, key, what string, single func() bool, list func() bool) {
	t.Nontrivial("%s", what)
	t.Seen("falsifications", key)
	for i, f := range []func() bool{single, list} {
		if f == nil {
			continue
		}
		ok := false
		pn := noPanic(func() { ok = f() })
		name := []string{"alone", "as a list"}[i]
		t.Check(pn == "", key+":panic", "%s: verifying it %s crashes: %s", what, name, pn)
		t.Check(!ok, key+":accepted", "%s: accepted %s", what, name)
	}
}

// otherPoint returns a point different from p.
func otherPoint(t *T, p kyber.Point, how int) kyber.Point {
	s := libunlynx.SuiTe
	var q kyber.Point
	switch how % 6 {
	case 0:
		_, q = newKey()
	case 1:
		q = s.Point().Null()
	case 2:
		q = s.Point().Base()
	case 3:
		q = s.Point().Neg(p)
	case 4:
		q = s.Point().Add(p, s.Point().Base())
	case 5:
		q = s.Point().Add(p, p)
	}
	if q.Equal(p) {
		_, q = newKey()
	}
	return q
}

// mutateProof returns a proof that differs in what it proves with (never
// only by what follows it).
func mutateProof(t *T, b []byte, how int) ([]byte, string) {
	c := append([]byte{}, b...)
	switch how % 6 {
	case 0:
		i := t.R.Intn(len(c))
		c[i] ^= 1 << uint(t.R.Intn(8))
		return c, "bit"
	case 1:
		return c[:t.R.Intn(len(c))], "truncated"
	case 2:
		return nil, "absent"
	case 3:
		for i := range c {
			c[i] = 0
		}
		return c, "zeroes"
	case 4:
		t.R.Read(c)
		return c, "random"
	default: // two blocks exchanged
		i, j := t.R.Intn(len(c)/32), t.R.Intn(len(c)/32)
		for k := 0; k < 32; k++ {
			c[32*i+k], c[32*j+k] = c[32*j+k], c[32*i+k]
		}
		if string(c) == string(b) {
			c[0] ^= 1
		}
		return c, "blocks"
	}
}

// positions to falsify in a list of n.
func positions(t *T, n int, full bool) []int {
	if n == 0 {
		return nil
	}
	set := map[int]bool{0: true, n - 1: true, n / 2: true, t.R.Intn(n): true}
	if n > 100 {
		set[99], set[100] = true, true
	}
	if full || n <= 4 {
		for i := 0; i < n; i++ {
			set[i] = true
		}
	}
	var out []int
	for i := 0; i < n; i++ {
		if set[i] {
			out = append(out, i)
		}
	}
	return out
}

// --- key switch ------------------------------------------------------------

func c13KS(t *T, n int, full bool) {
	s := newKSStep(t, n, "mixed")
	good, err := s.prove()
	must(err)
	for _, pos := range positions(t, n, full) {
		try := func(name string, f func(p *libunlynxkeyswitch.PublishedKSProof)) {
			l := libunlynxkeyswitch.PublishedKSListProof{List: append([]libunlynxkeyswitch.PublishedKSProof{}, good.List...)}
			f(&l.List[pos])
			rejected(t, "ks:"+name, fmt.Sprintf("key switch, %s at %d of %d", name, pos, n),
				func() bool { return libunlynxkeyswitch.KeySwitchProofVerification(l.List[pos]) },
				func() bool { return libunlynxkeyswitch.KeySwitchListProofVerification(l, 1) })
		}
		how := t.R.Intn(6)
		try("K", func(p *libunlynxkeyswitch.PublishedKSProof) { p.K = otherPoint(t, p.K, how) })
		try("ViB", func(p *libunlynxkeyswitch.PublishedKSProof) { p.ViB = otherPoint(t, p.ViB, how+1) })
		try("Ks2", func(p *libunlynxkeyswitch.PublishedKSProof) { p.Ks2 = otherPoint(t, p.Ks2, how+2) })
		try("RbNeg", func(p *libunlynxkeyswitch.PublishedKSProof) { p.RbNeg = otherPoint(t, p.RbNeg, how+3) })
		try("Q", func(p *libunlynxkeyswitch.PublishedKSProof) { p.Q = otherPoint(t, p.Q, how+4) })
		for h := 0; h < 6; h++ {
			c, name := mutateProof(t, good.List[pos].Proof, h)
			try("proof-"+name, func(p *libunlynxkeyswitch.PublishedKSProof) { p.Proof = c })
		}
		try("no-points", func(p *libunlynxkeyswitch.PublishedKSProof) {
			*p = libunlynxkeyswitch.PublishedKSProof{Proof: p.Proof}
		})
		try("no-K", func(p *libunlynxkeyswitch.PublishedKSProof) { p.K = nil })
		try("no-Q", func(p *libunlynxkeyswitch.PublishedKSProof) { p.Q = nil })
		try("no-ViB", func(p *libunlynxkeyswitch.PublishedKSProof) { p.ViB = nil })
		try("no-Ks2", func(p *libunlynxkeyswitch.PublishedKSProof) { p.Ks2 = nil })
		try("no-RbNeg", func(p *libunlynxkeyswitch.PublishedKSProof) { p.RbNeg = nil })
		try("nothing", func(p *libunlynxkeyswitch.PublishedKSProof) { *p = libunlynxkeyswitch.PublishedKSProof{} })
		if n > 1 {
			o := good.List[(pos+1)%n]
			if !o.ViB.Equal(good.List[pos].ViB) {
				try("other-Ks2", func(p *libunlynxkeyswitch.PublishedKSProof) { p.Ks2 = o.Ks2 })
				try("other-ViB", func(p *libunlynxkeyswitch.PublishedKSProof) { p.ViB = o.ViB })
				try("other-proof", func(p *libunlynxkeyswitch.PublishedKSProof) { p.Proof = o.Proof })
			}
		}
	}
	// wrong statements given to the prover itself
	if n == 0 {
		return
	}
	pos := t.R.Intn(n)
	liar := func(name string, f func(w *ksStep)) {
		w := &ksStep{k: s.k, K: s.K, Q: s.Q, rbs: s.rbs, ks2s: append([]kyber.Point{}, s.ks2s...), neg: append([]kyber.Point{}, s.neg...), vis: append([]kyber.Scalar{}, s.vis...)}
		f(w)
		var l libunlynxkeyswitch.PublishedKSListProof
		var err error
		if pn := noPanic(func() { l, err = w.prove() }); pn != "" {
			t.Fail("ks:prover-panic", "key switch, %s at %d of %d: the prover crashes: %s", name, pos, n, pn)
			return
		}
		if err != nil {
			t.Count("refused_by_the_prover", 1)
			return
		}
		rejected(t, "ks:lie-"+name, fmt.Sprintf("key switch proved with wrong %s at %d of %d", name, pos, n),
			func() bool {
				for _, p := range l.List {
					if !libunlynxkeyswitch.KeySwitchProofVerification(p) {
						return false
					}
				}
				return true
			},
			func() bool { return libunlynxkeyswitch.KeySwitchListProofVerification(l, 1) })
	}
	liar("secret", func(w *ksStep) { w.k, _ = newKey() })
	liar("public key", func(w *ksStep) { _, w.K = newKey() })
	liar("target", func(w *ksStep) { _, w.Q = newKey() })
	liar("contribution", func(w *ksStep) { w.ks2s[pos] = otherPoint(t, w.ks2s[pos], 4) })
	liar("input", func(w *ksStep) { w.neg[pos] = otherPoint(t, w.neg[pos], 4) })
	liar("randomness", func(w *ksStep) { w.vis[pos], _ = newKey() })
	if n > 1 && !s.ks2s[pos].Equal(s.ks2s[(pos+1)%n]) {
		liar("order", func(w *ksStep) { j := (pos + 1) % n; w.ks2s[pos], w.ks2s[j] = w.ks2s[j], w.ks2s[pos] })
	}
}

// --- tags ------------------------------------------------------------------

func c13Tag(t *T, n int, full bool) {
	s := newTagStep(t, n, "fresh")
	good, err := s.prove()
	must(err)
	type P = libunlynxdetertag.PublishedDDTCreationProof
	type L = libunlynxdetertag.PublishedDDTCreationListProof
	verify := func(key, what string, l L, pos int) {
		rejected(t, key, what,
			func() bool { return libunlynxdetertag.DeterministicTagCrProofVerification(l.List[pos], l.K, l.SB) },
			func() bool { return libunlynxdetertag.DeterministicTagCrListProofVerification(l, 1) })
	}
	for _, pos := range positions(t, n, full) {
		try := func(name string, f func(l *L, p *P)) {
			l := L{List: append([]P{}, good.List...), K: good.K, SB: good.SB}
			f(&l, &l.List[pos])
			verify("tag:"+name, fmt.Sprintf("tag, %s at %d of %d", name, pos, n), l, pos)
		}
		how := t.R.Intn(6)
		try("K", func(l *L, p *P) { l.K = otherPoint(t, l.K, how) })
		try("SB", func(l *L, p *P) { l.SB = otherPoint(t, l.SB, how) })
		try("bef.K", func(l *L, p *P) { p.CTbef.K = otherPoint(t, p.CTbef.K, how+1) })
		try("bef.C", func(l *L, p *P) { p.CTbef.C = otherPoint(t, p.CTbef.C, how+2) })
		try("aft.K", func(l *L, p *P) { p.CTaft.K = otherPoint(t, p.CTaft.K, how+3) })
		try("aft.C", func(l *L, p *P) { p.CTaft.C = otherPoint(t, p.CTaft.C, how+4) })
		try("Ciminus11Si", func(l *L, p *P) { p.Ciminus11Si = otherPoint(t, p.Ciminus11Si, how+5) })
		for h := 0; h < 6; h++ {
			c, name := mutateProof(t, good.List[pos].Proof, h)
			try("proof-"+name, func(l *L, p *P) { p.Proof = c })
		}
		try("nothing", func(l *L, p *P) { *p = P{} })
		try("no-points", func(l *L, p *P) { *p = P{Proof: p.Proof} })
		try("no-K", func(l *L, p *P) { l.K = nil })
		try("no-SB", func(l *L, p *P) { l.SB = nil })
		try("no-Ciminus11Si", func(l *L, p *P) { p.Ciminus11Si = nil })
		if n > 1 {
			o := good.List[(pos+1)%n]
			try("other-aft", func(l *L, p *P) { p.CTaft = o.CTaft })
			try("other-bef", func(l *L, p *P) { p.CTbef = o.CTbef })
			try("other-proof", func(l *L, p *P) { p.Proof = o.Proof })
		}
		// a tag of another value, with the free point of the proof chosen to fit
		try("forged", func(l *L, p *P) {
			*p = forgeTag(t, s, pos)
		})
	}
	if n == 0 {
		return
	}
	pos := t.R.Intn(n)
	liar := func(name string, f func(w *tagStep)) {
		w := &tagStep{k: s.k, s: s.s, K: s.K, bef: cloneVec(s.bef), aft: cloneVec(s.aft)}
		f(w)
		var l L
		var err error
		if pn := noPanic(func() { l, err = w.prove() }); pn != "" {
			t.Fail("tag:prover-panic", "tag, %s at %d of %d: the prover crashes: %s", name, pos, n, pn)
			return
		}
		if err != nil {
			t.Count("refused_by_the_prover", 1)
			return
		}
		rejected(t, "tag:lie-"+name, fmt.Sprintf("tag proved with wrong %s at %d of %d", name, pos, n), nil,
			func() bool { return libunlynxdetertag.DeterministicTagCrListProofVerification(l, 1) })
	}
	liar("private key", func(w *tagStep) { w.k, _ = newKey() })
	liar("public key", func(w *tagStep) { _, w.K = newKey() })
	liar("secret", func(w *tagStep) { w.s, _ = newKey() })
	liar("swapped secrets", func(w *tagStep) { w.k, w.s = w.s, w.k })
	liar("tag", func(w *tagStep) { w.aft[pos].C = otherPoint(t, w.aft[pos].C, 4) })
	liar("tag key", func(w *tagStep) { w.aft[pos].K = otherPoint(t, w.aft[pos].K, 4) })
	liar("input", func(w *tagStep) { w.bef[pos].C = otherPoint(t, w.bef[pos].C, 4) })
	liar("aliased input", func(w *tagStep) { w.bef = w.aft })
	if n > 1 {
		liar("order", func(w *tagStep) { j := (pos + 1) % n; w.aft[pos], w.aft[j] = w.aft[j], w.aft[pos] })
	}
}

// forgeTag proves, with the system's own predicate, a tag of another value:
// the point -s*K of the proof is replaced by one that makes up for it.
func forgeTag(t *T, s *tagStep, pos int) libunlynxdetertag.PublishedDDTCreationProof {
	su := libunlynx.SuiTe
	bef := s.bef[pos]
	aft := libunlynx.CipherText{K: s.aft[pos].K, C: su.Point().Add(s.aft[pos].C, pt(int64(1+t.R.Intn(50))))}
	// aft.C = s*bef.C + k*X
	x := su.Point().Sub(aft.C, su.Point().Mul(s.s, bef.C))
	x = su.Point().Mul(su.Scalar().Inv(s.k), x)
	and := proof.And(proof.Rep("ci1", "s", "ciminus11"), proof.Rep("K", "k", "B"))
	and = proof.And(and, proof.Rep("ci2", "s", "ciminus12", "k", "ciminus11Si"))
	and = proof.And(and, proof.Rep("SB", "s", "B"))
	sval := map[string]kyber.Scalar{"k": s.k, "s": s.s}
	pval := map[string]kyber.Point{"B": su.Point().Base(), "K": s.K, "SB": su.Point().Mul(s.s, nil), "ciminus11Si": x, "ciminus12": bef.C, "ciminus11": bef.K, "ci2": aft.C, "ci1": aft.K}
	prf, err := proof.HashProve(su, "proofTest", proof.And(and).Prover(su, sval, pval, nil))
	must(err)
	return libunlynxdetertag.PublishedDDTCreationProof{Proof: prf, Ciminus11Si: x, CTbef: bef, CTaft: aft}
}

func c13Addition(t *T, n int, full bool) {
	s := newAddStep(t, n, "mixed")
	type P = libunlynxdetertag.PublishedDDTAdditionProof
	type L = libunlynxdetertag.PublishedDDTAdditionListProof
	var good L
	for i := 0; i < n; i++ {
		p, err := libunlynxdetertag.DeterministicTagAdditionProofCreation(s.c1[i], s.s[i], s.c2[i], s.r[i])
		must(err)
		good.List = append(good.List, p)
	}
	for _, pos := range positions(t, n, full) {
		try := func(name string, f func(p *P)) {
			l := L{List: append([]P{}, good.List...)}
			f(&l.List[pos])
			rejected(t, "addition:"+name, fmt.Sprintf("tag addition, %s at %d of %d", name, pos, n),
				func() bool { return libunlynxdetertag.DeterministicTagAdditionProofVerification(l.List[pos]) },
				func() bool { return libunlynxdetertag.DeterministicTagAdditionListProofVerification(l, 1) })
		}
		how := t.R.Intn(6)
		try("C1", func(p *P) { p.C1 = otherPoint(t, p.C1, how) })
		try("C2", func(p *P) { p.C2 = otherPoint(t, p.C2, how+1) })
		try("R", func(p *P) { p.R = otherPoint(t, p.R, how+2) })
		try("C1-and-C2", func(p *P) { // the sum still fits, the proof does not
			d := pt(int64(1 + t.R.Intn(9)))
			p.C1, p.C2 = libunlynx.SuiTe.Point().Add(p.C1, d), libunlynx.SuiTe.Point().Sub(p.C2, d)
		})
		for h := 0; h < 6; h++ {
			c, name := mutateProof(t, good.List[pos].Proof, h)
			try("proof-"+name, func(p *P) { p.Proof = c })
		}
		try("nothing", func(p *P) { *p = P{} })
		try("no-points", func(p *P) { *p = P{Proof: p.Proof} })
		try("no-R", func(p *P) { p.R = nil })
		try("no-C2", func(p *P) { p.C2 = nil })
		liar := func(name string, c1 kyber.Point, k kyber.Scalar, c2, r kyber.Point) {
			p, err := libunlynxdetertag.DeterministicTagAdditionProofCreation(c1, k, c2, r)
			if err != nil {
				t.Count("refused_by_the_prover", 1)
				return
			}
			try("lie-"+name, func(q *P) { *q = p })
		}
		k2, _ := newKey()
		liar("secret", s.c1[pos], k2, s.c2[pos], s.r[pos])
		liar("sum", s.c1[pos], s.s[pos], s.c2[pos], otherPoint(t, s.r[pos], how))
		liar("input", otherPoint(t, s.c1[pos], how), s.s[pos], s.c2[pos], s.r[pos])
	}
}

// --- aggregation -----------------------------------------------------------

func c13Aggr(t *T, n int, full bool) {
	width := []int{1, 2, 3, 7, 150}[t.R.Intn(5)]
	s := newAggStep(t, n, width, "fresh")
	good := s.prove()
	type P = libunlynxaggr.PublishedAggregationProof
	for _, pos := range positions(t, n, full) {
		try := func(name string, f func(p *P)) {
			l := libunlynxaggr.PublishedAggregationListProof{}
			for _, p := range good.List {
				l.List = append(l.List, P{Data: cloneVec(p.Data), AggregationResult: cloneCT(p.AggregationResult)})
			}
			f(&l.List[pos])
			rejected(t, "aggregation:"+name, fmt.Sprintf("aggregation of %d, %s at %d of %d", width, name, pos, n),
				func() bool { return libunlynxaggr.AggregationProofVerification(l.List[pos]) },
				func() bool { return libunlynxaggr.AggregationListProofVerification(l, 1) })
		}
		how := t.R.Intn(6)
		j := t.R.Intn(width)
		try("result.K", func(p *P) { p.AggregationResult.K = otherPoint(t, p.AggregationResult.K, how) })
		try("result.C", func(p *P) { p.AggregationResult.C = otherPoint(t, p.AggregationResult.C, how+1) })
		try("data.K", func(p *P) { p.Data[j].K = otherPoint(t, p.Data[j].K, how+2) })
		try("data.C", func(p *P) { p.Data[j].C = otherPoint(t, p.Data[j].C, how+3) })
		try("dropped", func(p *P) { p.Data = append(p.Data[:j], p.Data[j+1:]...) })
		try("repeated", func(p *P) { p.Data = append(p.Data, p.Data[j]) })
		try("added", func(p *P) { p.Data = append(p.Data, encWith(s.data[pos][0].K, 3)) })
		try("no-data", func(p *P) { p.Data = nil })
		try("no-result", func(p *P) { p.AggregationResult = libunlynx.CipherText{} })
		try("no-point", func(p *P) { p.Data[j].C = nil })
		try("nothing", func(p *P) { *p = P{} })
		try("swapped-components", func(p *P) {
			p.AggregationResult.K, p.AggregationResult.C = p.AggregationResult.C, p.AggregationResult.K
		})
		if n > 1 {
			o := good.List[(pos+1)%n]
			try("other-result", func(p *P) { p.AggregationResult = o.AggregationResult })
			try("other-data", func(p *P) { p.Data = o.Data })
		}
	}
}

// --- add and remove a server -----------------------------------------------

func c13AddRm(t *T, n int, add, full bool) {
	s := newArmStep(t, n, "fresh", add)
	good, err := s.prove()
	must(err)
	type P = libunlynxaddrm.PublishedAddRmProof
	type L = libunlynxaddrm.PublishedAddRmListProof
	for _, pos := range positions(t, n, full) {
		try := func(name string, f func(l *L, p *P)) {
			l := L{List: append([]P{}, good.List...), Krm: good.Krm, ToAdd: good.ToAdd}
			f(&l, &l.List[pos])
			rejected(t, "add-rm:"+name, fmt.Sprintf("add %v, %s at %d of %d", add, name, pos, n),
				func() bool { return libunlynxaddrm.AddRmProofVerification(l.List[pos], l.Krm, l.ToAdd) },
				func() bool { return libunlynxaddrm.AddRmListProofVerification(l, 1) })
		}
		how := t.R.Intn(6)
		try("Krm", func(l *L, p *P) { l.Krm = otherPoint(t, l.Krm, how) })
		try("ToAdd", func(l *L, p *P) { l.ToAdd = !l.ToAdd })
		try("bef.K", func(l *L, p *P) { p.CtBef.K = otherPoint(t, p.CtBef.K, how+1) })
		try("bef.C", func(l *L, p *P) { p.CtBef.C = otherPoint(t, p.CtBef.C, how+2) })
		try("aft.K", func(l *L, p *P) { p.CtAft.K = otherPoint(t, p.CtAft.K, how+3) })
		try("aft.C", func(l *L, p *P) { p.CtAft.C = otherPoint(t, p.CtAft.C, how+4) })
		try("RB", func(l *L, p *P) { p.RB = otherPoint(t, p.RB, how+5) })
		try("both.K", func(l *L, p *P) {
			q := otherPoint(t, p.CtBef.K, how)
			p.CtBef.K, p.CtAft.K, p.RB = q, q, q
		})
		try("before-and-after", func(l *L, p *P) { p.CtBef, p.CtAft = p.CtAft, p.CtBef })
		for h := 0; h < 6; h++ {
			c, name := mutateProof(t, good.List[pos].Proof, h)
			try("proof-"+name, func(l *L, p *P) { p.Proof = c })
		}
		try("nothing", func(l *L, p *P) { *p = P{} })
		try("no-points", func(l *L, p *P) { *p = P{Proof: p.Proof} })
		try("no-Krm", func(l *L, p *P) { l.Krm = nil })
		try("no-after", func(l *L, p *P) { p.CtAft = libunlynx.CipherText{} })
		if n > 1 {
			o := good.List[(pos+1)%n]
			try("other-aft", func(l *L, p *P) { p.CtAft = o.CtAft })
			try("other-bef", func(l *L, p *P) { p.CtBef = o.CtBef })
			try("other-proof", func(l *L, p *P) { p.Proof = o.Proof })
		}
	}
	if n == 0 {
		return
	}
	pos := t.R.Intn(n)
	liar := func(name string, f func(w *armStep)) {
		w := &armStep{k: s.k, K: s.K, add: s.add, bef: cloneVec(s.bef), aft: cloneVec(s.aft)}
		f(w)
		l, err := w.prove()
		if err != nil {
			t.Count("refused_by_the_prover", 1)
			return
		}
		rejected(t, "add-rm:lie-"+name, fmt.Sprintf("add %v proved with wrong %s at %d of %d", add, name, pos, n), nil,
			func() bool { return libunlynxaddrm.AddRmListProofVerification(l, 1) })
	}
	liar("secret", func(w *armStep) { w.k, _ = newKey() })
	liar("key", func(w *armStep) { _, w.K = newKey() })
	liar("direction", func(w *armStep) { w.add = !w.add })
	liar("result", func(w *armStep) { w.aft[pos].C = otherPoint(t, w.aft[pos].C, 4) })
	liar("result key", func(w *armStep) { w.aft[pos].K = otherPoint(t, w.aft[pos].K, 4) })
	liar("nothing done", func(w *armStep) { w.aft = w.bef })
	if n > 1 {
		liar("order", func(w *armStep) { j := (pos + 1) % n; w.aft[pos], w.aft[j] = w.aft[j], w.aft[pos] })
	}
}

// --- shuffle ---------------------------------------------------------------

// c13WideShuffle exchanges columns that lie far apart, of rows wider than what
// one goroutine works on.
func c13WideShuffle(t *T, width int) {
	s := newShufStep(t, 2, width, "fresh", "")
	good, err := s.prove()
	must(err)
	n := libunlynx.VPARALLELIZE
	pairs := [][2]int{{0, width - 1}, {t.R.Intn(width - 1), width - 1}}
	for _, d := range []int{1, 32, 64, n / 2, n, n + 1, 2 * n} {
		if d < width {
			j := t.R.Intn(width - d)
			pairs = append(pairs, [2]int{j, j + d})
		}
	}
	for _, pr := range pairs {
		i, j := pr[0], pr[1]
		for _, all := range []bool{false, true} {
			p := good
			p.ShuffledList = cloneMat(good.ShuffledList)
			for _, r := range p.ShuffledList {
				r[i], r[j] = r[j], r[i]
				if !all {
					break
				}
			}
			rejected(t, "shuffle:wide-columns", fmt.Sprintf("shuffle of 2x%d, columns %d and %d exchanged, in all rows %v", width, i, j, all),
				func() bool { return libunlynxshuffle.ShuffleProofVerification(p, s.h) }, nil)
		}
	}
}

func c13Shuffle(t *T, rows, width int, full bool) {
	s := newShufStep(t, rows, width, "fresh", "")
	good, err := s.prove()
	must(err)
	type P = libunlynxshuffle.PublishedShufflingProof
	_, seed2 := newKey()
	run := func(name string, seed kyber.Point, f func(p *P)) {
		p := P{OriginalList: cloneMat(good.OriginalList), ShuffledList: cloneMat(good.ShuffledList), G: good.G, H: good.H, HashProof: append([]byte{}, good.HashProof...)}
		f(&p)
		other := P{OriginalList: s.in, ShuffledList: s.out, G: s.g, H: s.h, HashProof: good.HashProof}
		lst := []P{other, other, other}
		lst[t.R.Intn(3)] = p
		rejected(t, "shuffle:"+name, fmt.Sprintf("shuffle of %dx%d, %s", rows, width, name),
			func() bool { return libunlynxshuffle.ShuffleProofVerification(p, seed) },
			func() bool {
				return libunlynxshuffle.ShuffleListProofVerification(libunlynxshuffle.PublishedShufflingListProof{List: lst}, seed, 1)
			})
	}
	try := func(name string, f func(p *P)) { run(name, s.h, f) }
	rounds := 1
	if full {
		rounds = 6
	}
	for r := 0; r < rounds; r++ {
		how := t.R.Intn(6)
		for _, i := range positions(t, rows, false) {
			j := t.R.Intn(width)
			try("out.K", func(p *P) { p.ShuffledList[i][j].K = otherPoint(t, p.ShuffledList[i][j].K, how) })
			try("out.C", func(p *P) { p.ShuffledList[i][j].C = otherPoint(t, p.ShuffledList[i][j].C, how+1) })
			try("in.K", func(p *P) { p.OriginalList[i][j].K = otherPoint(t, p.OriginalList[i][j].K, how+2) })
			try("in.C", func(p *P) { p.OriginalList[i][j].C = otherPoint(t, p.OriginalList[i][j].C, how+3) })
			try("reencrypted", func(p *P) { // same plaintext, other ciphertext
				k, _ := newKey()
				c := &p.ShuffledList[i][j]
				c.K = libunlynx.SuiTe.Point().Add(c.K, libunlynx.SuiTe.Point().Mul(k, nil))
				c.C = libunlynx.SuiTe.Point().Add(c.C, libunlynx.SuiTe.Point().Mul(k, s.h))
			})
			try("dropped-out", func(p *P) { p.ShuffledList = append(p.ShuffledList[:i], p.ShuffledList[i+1:]...) })
			try("dropped-in", func(p *P) { p.OriginalList = append(p.OriginalList[:i], p.OriginalList[i+1:]...) })
			try("dropped-both", func(p *P) {
				p.OriginalList = append(p.OriginalList[:i], p.OriginalList[i+1:]...)
				p.ShuffledList = append(p.ShuffledList[:s.where(i)], p.ShuffledList[s.where(i)+1:]...)
			})
			try("repeated-out", func(p *P) { p.ShuffledList = append(p.ShuffledList, p.ShuffledList[i]) })
			try("repeated-both", func(p *P) {
				p.OriginalList = append(p.OriginalList, p.OriginalList[i])
				p.ShuffledList = append(p.ShuffledList, p.ShuffledList[s.where(i)])
			})
			if rows > 1 {
				o := (i + 1) % rows
				try("out-over-another", func(p *P) { p.ShuffledList[o] = cloneVec(p.ShuffledList[i]) })
				try("in-over-another", func(p *P) { p.OriginalList[o] = cloneVec(p.OriginalList[i]) })
				try("out-order", func(p *P) { p.ShuffledList[i], p.ShuffledList[o] = p.ShuffledList[o], p.ShuffledList[i] })
				try("in-order", func(p *P) { p.OriginalList[i], p.OriginalList[o] = p.OriginalList[o], p.OriginalList[i] })
				try("cells-exchanged", func(p *P) {
					p.ShuffledList[i][j], p.ShuffledList[o][j] = p.ShuffledList[o][j], p.ShuffledList[i][j]
				})
			}
			if width > 1 {
				o := (j + 1) % width
				try("columns-of-a-row", func(p *P) {
					p.ShuffledList[i][j], p.ShuffledList[i][o] = p.ShuffledList[i][o], p.ShuffledList[i][j]
				})
				try("columns", func(p *P) {
					for _, r := range p.ShuffledList {
						r[j], r[o] = r[o], r[j]
					}
				})
				// changes of two columns that cancel out in the combination of columns a
				// verifier would make if it only looked at the first row of the input
				try("compensated", func(p *P) {
					var es []kyber.Scalar
					var err error
					if pn := noPanic(func() { es, err = libunlynxshuffle.CipherVectorComputeE(s.h, p.OriginalList[0]) }); pn != "" || err != nil || len(es) != width {
						p.ShuffledList[i][j].C = otherPoint(t, p.ShuffledList[i][j].C, 4)
						return
					}
					su := libunlynx.SuiTe
					d := pt(int64(1 + t.R.Intn(50)))
					f := su.Scalar().Div(es[j], es[o])
					p.ShuffledList[i][j].C = su.Point().Add(p.ShuffledList[i][j].C, d)
					p.ShuffledList[i][o].C = su.Point().Sub(p.ShuffledList[i][o].C, su.Point().Mul(f, d))
				})
				try("compensated-in", func(p *P) {
					if rows == 1 {
						p.OriginalList[0][j].C = otherPoint(t, p.OriginalList[0][j].C, 4)
						return
					}
					k := 1 + t.R.Intn(rows-1)
					es, err := libunlynxshuffle.CipherVectorComputeE(s.h, p.OriginalList[0])
					must(err)
					su := libunlynx.SuiTe
					d := pt(int64(1 + t.R.Intn(50)))
					f := su.Scalar().Div(es[j], es[o])
					p.OriginalList[k][j].K = su.Point().Add(p.OriginalList[k][j].K, d)
					p.OriginalList[k][o].K = su.Point().Sub(p.OriginalList[k][o].K, su.Point().Mul(f, d))
				})
			}
			try("narrower-row", func(p *P) { p.ShuffledList[i] = p.ShuffledList[i][:width-1] })
			try("wider-row", func(p *P) { p.ShuffledList[i] = append(p.ShuffledList[i], encWith(s.h, 1)) })
			try("wider-rows", func(p *P) {
				for k := range p.ShuffledList {
					p.ShuffledList[k] = append(p.ShuffledList[k], encWith(s.h, 1))
					p.OriginalList[k] = append(p.OriginalList[k], encWith(s.h, 2))
				}
			})
			try("narrower-rows", func(p *P) {
				for k := range p.ShuffledList {
					p.ShuffledList[k] = p.ShuffledList[k][:width-1]
					p.OriginalList[k] = p.OriginalList[k][:width-1]
				}
			})
			try("empty-row", func(p *P) { p.OriginalList[i] = nil })
			try("no-point", func(p *P) { p.ShuffledList[i][j].K = nil })
		}
		try("G", func(p *P) { p.G = otherPoint(t, p.G, how) })
		try("H", func(p *P) { p.H = otherPoint(t, p.H, how) })
		run("seed", otherPoint(t, s.h, how), func(p *P) {})
		try("no-G", func(p *P) { p.G = nil })
		try("no-H", func(p *P) { p.H = nil })
		try("no-in", func(p *P) { p.OriginalList = nil })
		try("no-out", func(p *P) { p.ShuffledList = nil })
		try("no-lists", func(p *P) { p.OriginalList, p.ShuffledList = nil, nil })
		try("nothing", func(p *P) { *p = P{} })
		for h := 0; h < 6; h++ {
			c, name := mutateProof(t, good.HashProof, h)
			try("proof-"+name, func(p *P) { p.HashProof = c })
		}
		again, err := s.prove()
		must(err)
		if rows > 1 {
			o := newShufStep(t, rows, width, "fresh", "")
			oth, err := o.prove()
			must(err)
			try("other-proof", func(p *P) { p.HashProof = oth.HashProof })
			try("other-out", func(p *P) { p.ShuffledList = oth.ShuffledList })
		}
		mix := append(append([]byte{}, good.HashProof[:len(good.HashProof)/2]...), again.HashProof[len(again.HashProof)/2:]...)
		try("mixed-proofs", func(p *P) { p.HashProof = mix })
	}
	// wrong statements given to the prover
	liar := func(name string, f func(w *shufStep)) {
		w := &shufStep{g: s.g, h: s.h, in: cloneMat(s.in), out: cloneMat(s.out), pi: append([]int{}, s.pi...), beta: s.beta}
		f(w)
		var p P
		var err error
		pn := noPanic(func() { p, err = w.prove() })
		if pn != "" || err != nil {
			t.Count("refused_by_the_prover", 1)
			return
		}
		rejected(t, "shuffle:lie-"+name, fmt.Sprintf("shuffle of %dx%d proved with %s", rows, width, name),
			func() bool { return libunlynxshuffle.ShuffleProofVerification(p, s.h) },
			func() bool {
				return libunlynxshuffle.ShuffleListProofVerification(libunlynxshuffle.PublishedShufflingListProof{List: []P{good, p}}, s.h, 1)
			})
	}
	i := t.R.Intn(rows)
	j := t.R.Intn(width)
	liar("a changed row", func(w *shufStep) { w.out[i][j].C = otherPoint(t, w.out[i][j].C, 4) })
	liar("fresh encryptions of other values", func(w *shufStep) { w.out[i] = encVec(s.h, mixedInts(t, width)) })
	liar("the input as output", func(w *shufStep) { w.out = w.in })
	liar("another key", func(w *shufStep) {
		// re-randomised under another key: the plaintexts are lost
		w.h = seed2
		w.out, w.pi, w.beta = libunlynxshuffle.ShuffleSequence(w.in, w.g, w.h, nil)
	})
	if rows > 1 {
		o := (i + 1) % rows
		liar("a repeated row", func(w *shufStep) { w.out[o] = cloneVec(w.out[i]) })
		liar("another order", func(w *shufStep) { w.out[i], w.out[o] = w.out[o], w.out[i] })
		liar("a row repeated before shuffling", func(w *shufStep) {
			in := cloneMat(w.in)
			in[o] = cloneVec(in[i])
			w.out, w.pi, w.beta = libunlynxshuffle.ShuffleSequence(in, w.g, w.h, nil)
		})
		liar("values exchanged between rows", func(w *shufStep) {
			in := cloneMat(w.in)
			in[o][j], in[i][j] = in[i][j], in[o][j]
			if width == 1 {
				in[i][j] = encWith(s.h, 77)
			}
			w.out, w.pi, w.beta = libunlynxshuffle.ShuffleSequence(in, w.g, w.h, nil)
		})
		liar("a permutation that repeats", func(w *shufStep) {
			w.pi[o] = w.pi[i]
			for c := range w.out[o] {
				w.out[o][c].K = libunlynx.SuiTe.Point().Add(w.in[w.pi[i]][c].K, libunlynx.SuiTe.Point().Mul(w.beta[w.pi[i]][c], w.g))
				w.out[o][c].C = libunlynx.SuiTe.Point().Add(w.in[w.pi[i]][c].C, libunlynx.SuiTe.Point().Mul(w.beta[w.pi[i]][c], w.h))
			}
		})
	}
	if width > 1 {
		// two columns whose ciphertexts of the first row are the same, or not
		pairs := [][2]int{{j, (j + 1) % width}, {0, width - 1}, {0, 1}}
		if width > libunlynx.VPARALLELIZE {
			pairs = append(pairs, [2]int{0, libunlynx.VPARALLELIZE})
		}
		for k, ab := range pairs {
			a, b := ab[0], ab[1]
			for _, equal := range []bool{false, true} {
				again := func(w *shufStep) int {
					if equal {
						w.in[0][b] = cloneCT(w.in[0][a])
						w.out, w.pi, w.beta = libunlynxshuffle.ShuffleSequence(w.in, w.g, w.h, nil)
					}
					return w.where(rows - 1)
				}
				liar(fmt.Sprintf("a value moved to another column/%d %v", k, equal), func(w *shufStep) {
					o := again(w)
					d := pt(int64(1 + t.R.Intn(50)))
					w.out[o][a].C = libunlynx.SuiTe.Point().Add(w.out[o][a].C, d)
					w.out[o][b].C = libunlynx.SuiTe.Point().Sub(w.out[o][b].C, d)
				})
				liar(fmt.Sprintf("two columns of a row exchanged/%d %v", k, equal), func(w *shufStep) {
					o := again(w)
					w.out[o][a], w.out[o][b] = w.out[o][b], w.out[o][a]
					if equal && rows == 1 {
						w.out[o][a].C = otherPoint(t, w.out[o][a].C, 4)
					}
					beta := append([]kyber.Scalar{}, w.beta[w.pi[o]]...)
					beta[a], beta[b] = beta[b], beta[a]
					w.beta = append([][]kyber.Scalar{}, w.beta...)
					w.beta[w.pi[o]] = beta
				})
			}
		}
		// changes chosen by someone who knows the factors of the columns
		// beforehand, because they depend on a part of the lists only
		for _, known := range []string{"key", "in", "out", "first rows", "last row"} {
			if known == "last row" && rows == 1 || known == "out" && rows < 3 {
				continue
			}
			a, b := t.R.Intn(width), 0
			for b = t.R.Intn(width); b == a; b = t.R.Intn(width) {
			}
			liar("a change that cancels out/"+known, func(w *shufStep) {
				es := weakFactors(w, known)
				su := libunlynx.SuiTe
				d := pt(int64(1 + t.R.Intn(50)))
				f := su.Scalar().Div(es[a], es[b])
				row := w.out[rows-1]
				switch known {
				case "out": // of a row of the input but the first
					row = w.in[1+t.R.Intn(rows-1)]
				case "last row":
					row = w.out[0]
				}
				row[a].C = su.Point().Add(row[a].C, d)
				row[b].C = su.Point().Sub(row[b].C, su.Point().Mul(f, d))
			})
		}
	}
	if rows == 2 && width == 1 {
		bad := P{OriginalList: s.in, ShuffledList: cloneMat(s.out), G: s.g, H: s.h, HashProof: good.HashProof}
		bad.ShuffledList[i][j].C = otherPoint(t, s.out[i][j].C, 4)
		n := libunlynx.VPARALLELIZE + 3
		for _, at := range []int{0, 1, n - 4, n - 3, n - 2, n - 1} {
			lst := make([]P, n)
			for k := range lst {
				lst[k] = good
			}
			lst[at] = bad
			rejected(t, "shuffle:long-list", fmt.Sprintf("list of %d shuffles, number %d changed", n, at), func() bool {
				return libunlynxshuffle.ShuffleListProofVerification(libunlynxshuffle.PublishedShufflingListProof{List: lst}, s.h, 1)
			}, nil)
		}
	}
	c13Forge(t, s, rows, width)
}

// weakFactors computes the factors with which a prover and verifier would
// combine columns if they were derived from a part of the lists only.
func weakFactors(w *shufStep, known string) []kyber.Scalar {
	su := libunlynx.SuiTe
	seed := w.h
	lists := [][]libunlynx.CipherVector{}
	switch known {
	case "in":
		lists = append(lists, w.in)
	case "out":
		lists = append(lists, w.out)
	case "first rows":
		lists = append(lists, w.in[:1], w.out[:1])
	case "last row":
		lists = append(lists, w.in[len(w.in)-1:], w.out[len(w.out)-1:])
	}
	if len(lists) > 0 {
		b, err := w.h.MarshalBinary()
		must(err)
		x := su.XOF(b)
		for _, l := range lists {
			data, lengths, err := libunlynx.ArrayCipherVectorToBytes(l)
			must(err)
			_, err = x.Write(lengths)
			must(err)
			_, err = x.Write(data)
			must(err)
		}
		seed = su.Point().Pick(x)
	}
	var es []kyber.Scalar
	var err error
	if pn := noPanic(func() { es, err = libunlynxshuffle.CipherVectorComputeE(seed, w.in[0]) }); pn != "" || err != nil || len(es) != len(w.in[0]) {
		es = make([]kyber.Scalar, len(w.in[0]))
		for i := range es {
			es[i] = su.Scalar().One()
		}
	}
	return es
}

// where returns the row of the output that holds input row i.
func (s *shufStep) where(i int) int {
	for o, x := range s.pi {
		if x == i {
			return o
		}
	}
	return 0
}

// c13Forge proves a wrong shuffle with a prover of its own, which knows how
// the verifier combines columns: first a shuffle under another key, then one
// in which columns with equal ciphertexts are exchanged.
func c13Forge(t *T, s *shufStep, rows, width int) {
	type P = libunlynxshuffle.PublishedShufflingProof
	su := libunlynx.SuiTe
	if rows < 2 {
		return
	}
	combine := func(m []libunlynx.CipherVector, es []kyber.Scalar) (x, y []kyber.Point) {
		for _, r := range m {
			k, c := su.Point().Null(), su.Point().Null()
			for j := range r {
				k = su.Point().Add(k, su.Point().Mul(es[j], r[j].K))
				c = su.Point().Add(c, su.Point().Mul(es[j], r[j].C))
			}
			x, y = append(x, k), append(y, c)
		}
		return
	}
	forge := func(in, out []libunlynx.CipherVector, es []kyber.Scalar, h kyber.Point, beta [][]kyber.Scalar, pi []int) (P, error) {
		x, y := combine(in, es)
		b := make([]kyber.Scalar, len(in))
		for i := range b {
			b[i] = su.Scalar().Zero()
			for j := range es {
				b[i] = su.Scalar().Add(b[i], su.Scalar().Mul(beta[i][j], es[j]))
			}
		}
		sh := shuffleKyber.PairShuffle{}
		sh.Init(su, len(in))
		prf, err := proof.HashProve(su, "PairShuffle", func(ctx proof.ProverContext) error {
			return sh.Prove(pi, nil, h, b, x, y, su.RandomStream(), ctx)
		})
		return P{OriginalList: in, ShuffledList: out, G: s.g, H: h, HashProof: prf}, err
	}
	// control: the same prover, told the truth
	es, err := libunlynxshuffle.CipherVectorComputeE(s.h, s.in[0])
	must(err)

	_, h2 := newKey()
	out, pi, beta := libunlynxshuffle.ShuffleSequence(s.in, s.g, h2, nil)
	if p, err := forge(s.in, out, es, h2, beta, pi); err == nil {
		rejected(t, "shuffle:forged-key", fmt.Sprintf("shuffle of %dx%d under another key, columns combined as under the collective one", rows, width),
			func() bool { return libunlynxshuffle.ShuffleProofVerification(p, s.h) }, nil)
	}
	if width > 1 {
		// the first row repeats a ciphertext in two columns
		in := cloneMat(s.in)
		in[0][1] = cloneCT(in[0][0])
		es, err := libunlynxshuffle.CipherVectorComputeE(s.h, in[0])
		must(err)
		out, pi, beta := libunlynxshuffle.ShuffleSequence(in, s.g, s.h, nil)
		p, err := forge(in, out, es, s.h, beta, pi)
		if err != nil {
			return
		}
		q, err := libunlynxshuffle.ShuffleProofCreation(in, out, s.g, s.h, beta, pi)
		must(err)
		for _, f := range []P{p, q} {
			f.ShuffledList = cloneMat(f.ShuffledList)
			for o, i := range pi {
				if i != 0 {
					f.ShuffledList[o][0], f.ShuffledList[o][1] = f.ShuffledList[o][1], f.ShuffledList[o][0]
				}
			}
			rejected(t, "shuffle:equal-columns", fmt.Sprintf("shuffle of %dx%d, columns exchanged that are equal in the first row", rows, width),
				func() bool { return libunlynxshuffle.ShuffleProofVerification(f, s.h) }, nil)
		}
	}
}

func c13Cases(tier string, seed int64) []Case {
	var out []Case
	full := tier == "thorough"
	add := func(name string, cost float64, f func(t *T)) {
		out = append(out, Case{Name: name, Cost: cost, Run: f})
	}
	lens := []int{1, 2, 3, 7, 101}
	reps := 1
	if full {
		lens = []int{1, 2, 3, 4, 7, 13, 99, 100, 101, 202}
		reps = 4
	}
	for r := 0; r < reps; r++ {
		for _, n := range lens {
			n := n
			all := full && n < 20
			cost := 0.5 + float64(n)/8
			add(fmt.Sprintf("ks-%d-%d", n, r), cost, func(t *T) { c13KS(t, n, all) })
			add(fmt.Sprintf("tag-%d-%d", n, r), cost, func(t *T) { c13Tag(t, n, all) })
			add(fmt.Sprintf("addition-%d-%d", n, r), cost/2, func(t *T) { c13Addition(t, n, all) })
			add(fmt.Sprintf("aggregation-%d-%d", n, r), cost/3, func(t *T) { c13Aggr(t, n, all) })
			add(fmt.Sprintf("add-%d-%d", n, r), cost/2, func(t *T) { c13AddRm(t, n, true, all) })
			add(fmt.Sprintf("remove-%d-%d", n, r), cost/2, func(t *T) { c13AddRm(t, n, false, all) })
		}
		shapes := [][2]int{{1, 1}, {1, 3}, {2, 1}, {2, 2}, {3, 4}, {6, 3}, {25, 2}, {3, 25}, {2, 102}}
		if full {
			shapes = append(shapes, [2]int{2, 7}, [2]int{4, 4}, [2]int{9, 9}, [2]int{50, 3}, [2]int{101, 2}, [2]int{2, 101})
		}
		add(fmt.Sprintf("relax-%d", r), 1, c13Relax)
		for _, n := range []int{1, 2, 3, 5, 8} {
			n := n
			add(fmt.Sprintf("share-%d-%d", n, r), 1+float64(n)/4, func(t *T) { c13Share(t, n) })
		}
		for _, w := range []int{105, 203} {
			w := w
			add(fmt.Sprintf("wide-shuffle-%d-%d", w, r), float64(w)/5, func(t *T) { c13WideShuffle(t, w) })
		}
		for _, sh := range shapes {
			sh := sh
			add(fmt.Sprintf("shuffle-%dx%d-%d", sh[0], sh[1], r), 1+float64(sh[0]*sh[1])/8, func(t *T) { c13Shuffle(t, sh[0], sh[1], t.Tier == "thorough") })
		}
	}
	return out
}

// c13Share falsifies so many proofs of a list that the share to be verified
// must contain one of them, whichever proofs the verifier picks.
func c13Share(t *T, n int) {
	su := libunlynx.SuiTe
	off := func(p kyber.Point) kyber.Point { return su.Point().Add(p, pt(int64(1+t.R.Intn(9)))) }
	type kind struct {
		name string
		list func(bad map[int]bool, pct float64) bool
	}
	var kinds []kind
	ks, err := newKSStep(t, n, "mixed").prove()
	must(err)
	kinds = append(kinds, kind{"ks", func(bad map[int]bool, pct float64) bool {
		l := ks
		l.List = append([]libunlynxkeyswitch.PublishedKSProof{}, ks.List...)
		for i := range bad {
			l.List[i].ViB = off(l.List[i].ViB)
		}
		return libunlynxkeyswitch.KeySwitchListProofVerification(l, pct)
	}})
	tag, err := newTagStep(t, n, "fresh").prove()
	must(err)
	kinds = append(kinds, kind{"tag", func(bad map[int]bool, pct float64) bool {
		l := tag
		l.List = append([]libunlynxdetertag.PublishedDDTCreationProof{}, tag.List...)
		for i := range bad {
			l.List[i].CTaft = libunlynx.CipherText{K: l.List[i].CTaft.K, C: off(l.List[i].CTaft.C)}
		}
		return libunlynxdetertag.DeterministicTagCrListProofVerification(l, pct)
	}})
	as := newAddStep(t, n, "mixed")
	var addn libunlynxdetertag.PublishedDDTAdditionListProof
	for i := 0; i < n; i++ {
		p, err := libunlynxdetertag.DeterministicTagAdditionProofCreation(as.c1[i], as.s[i], as.c2[i], as.r[i])
		must(err)
		addn.List = append(addn.List, p)
	}
	kinds = append(kinds, kind{"addition", func(bad map[int]bool, pct float64) bool {
		l := libunlynxdetertag.PublishedDDTAdditionListProof{List: append([]libunlynxdetertag.PublishedDDTAdditionProof{}, addn.List...)}
		for i := range bad {
			l.List[i].R = off(l.List[i].R)
		}
		return libunlynxdetertag.DeterministicTagAdditionListProofVerification(l, pct)
	}})
	ag := newAggStep(t, n, 3, "fresh").prove()
	kinds = append(kinds, kind{"aggregation", func(bad map[int]bool, pct float64) bool {
		l := libunlynxaggr.PublishedAggregationListProof{List: append([]libunlynxaggr.PublishedAggregationProof{}, ag.List...)}
		for i := range bad {
			r := l.List[i].AggregationResult
			l.List[i].AggregationResult = libunlynx.CipherText{K: r.K, C: off(r.C)}
		}
		return libunlynxaggr.AggregationListProofVerification(l, pct)
	}})
	for _, add := range []bool{true, false} {
		ar, err := newArmStep(t, n, "fresh", add).prove()
		must(err)
		kinds = append(kinds, kind{fmt.Sprintf("add-rm-%v", add), func(bad map[int]bool, pct float64) bool {
			l := ar
			l.List = append([]libunlynxaddrm.PublishedAddRmProof{}, ar.List...)
			for i := range bad {
				l.List[i].CtAft = libunlynx.CipherText{K: l.List[i].CtAft.K, C: off(l.List[i].CtAft.C)}
			}
			return libunlynxaddrm.AddRmListProofVerification(l, pct)
		}})
	}
	s := newShufStep(t, 2, 2, "fresh", "")
	shuf, err := s.prove()
	must(err)
	kinds = append(kinds, kind{"shuffle", func(bad map[int]bool, pct float64) bool {
		var l libunlynxshuffle.PublishedShufflingListProof
		for i := 0; i < n; i++ {
			p := shuf
			if bad[i] {
				p.ShuffledList = cloneMat(shuf.ShuffledList)
				p.ShuffledList[i%2][0].C = off(p.ShuffledList[i%2][0].C)
			}
			l.List = append(l.List, p)
		}
		return libunlynxshuffle.ShuffleListProofVerification(l, s.h, pct)
	}})
	for _, k := range kinds {
		k := k
		for _, pct := range []float64{1e-6, 0.2, 0.25, 0.5, 0.7, 0.75, 0.9, 0.99, t.R.Float64()} {
			checked := int(math.Ceil(pct*float64(n) - 1e-9))
			if checked < 1 {
				continue
			}
			bad := map[int]bool{}
			for _, i := range t.R.Perm(n)[:n-checked+1] {
				bad[i] = true
			}
			rejected(t, "share:"+k.name, fmt.Sprintf("%s, %d of %d proofs wrong, verified at %g", k.name, len(bad), n, pct), nil,
				func() bool { return k.list(bad, pct) })
		}
	}
}
