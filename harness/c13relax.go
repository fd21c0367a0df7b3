package main

// Provers that prove less than they are asked to: the predicate of a proof,
// relaxed at one point, proven correctly for a statement that only the relaxed
// predicate makes true.

import (
	"fmt"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxaddrm "github.com/ldsec/unlynx/lib/add_rm"
	libunlynxdetertag "github.com/ldsec/unlynx/lib/deterministic_tag"
	libunlynxkeyswitch "github.com/ldsec/unlynx/lib/key_switch"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/kyber/v3/proof"
)

// relation is a conjunction of representations: target = sum of secret*base.
type relation []repr

type repr struct {
	target string
	terms  []string // secret, base, secret, base...
}

// relaxation is one way to weaken a relation.
type relaxation struct {
	name string
	reps relation        // what is proven
	free map[string]bool // targets that are not bound any more
}

func (rel relation) clone() relation {
	out := make(relation, len(rel))
	for i, r := range rel {
		out[i] = repr{r.target, append([]string{}, r.terms...)}
	}
	return out
}

// relaxations lists the relations in which one occurrence of a secret stands
// for another secret, and those in which one representation is missing.
func (rel relation) relaxations() []relaxation {
	var out []relaxation
	for i, r := range rel {
		for j := 0; j < len(r.terms); j += 2 {
			used := 0
			for _, q := range rel {
				for k := 0; k < len(q.terms); k += 2 {
					if q.terms[k] == r.terms[j] {
						used++
					}
				}
			}
			if used < 2 {
				continue
			}
			c := rel.clone()
			c[i].terms[j] = "z"
			out = append(out, relaxation{fmt.Sprintf("own-%s-in-%s", r.terms[j], r.target), c, nil})
		}
		if len(rel) > 1 {
			c := append(rel.clone()[:i], rel.clone()[i+1:]...)
			out = append(out, relaxation{"without-" + r.target, c, map[string]bool{r.target: true}})
		}
		if len(r.terms) > 2 {
			for j := 0; j < len(r.terms); j += 2 {
				c := rel.clone()
				c[i].terms = append(append([]string{}, r.terms[:j]...), r.terms[j+2:]...)
				out = append(out, relaxation{fmt.Sprintf("without-%s-in-%s", r.terms[j+1], r.target), c, nil})
			}
		}
	}
	return out
}

// prove proves the relaxed relation; points holds the bases, and receives the
// targets. after is called when a target is known, to derive bases from it.
func (x relaxation) prove(t *T, rel relation, secrets map[string]kyber.Scalar, points map[string]kyber.Point, after func()) []byte {
	su := libunlynx.SuiTe
	secrets["z"], _ = newKey()
	for _, r := range rel {
		if x.free[r.target] {
			points[r.target] = su.Point().Mul(secrets["z"], nil)
		}
		for _, q := range x.reps {
			if q.target == r.target {
				sum := su.Point().Null()
				for j := 0; j < len(q.terms); j += 2 {
					sum = su.Point().Add(sum, su.Point().Mul(secrets[q.terms[j]], points[q.terms[j+1]]))
				}
				points[r.target] = sum
			}
		}
		after()
	}
	var and proof.Predicate
	for i, q := range x.reps {
		p := proof.Rep(q.target, q.terms...)
		if i == 0 {
			and = p
		} else {
			and = proof.And(and, p)
		}
	}
	sval := map[string]kyber.Scalar{}
	for _, q := range x.reps {
		for j := 0; j < len(q.terms); j += 2 {
			sval[q.terms[j]] = secrets[q.terms[j]]
		}
	}
	prf, err := proof.HashProve(su, "proofTest", proof.And(and).Prover(su, sval, points, nil))
	must(err)
	return prf
}

func c13Relax(t *T) {
	su := libunlynx.SuiTe
	B := su.Point().Base()
	sc := func() kyber.Scalar { k, _ := newKey(); return k }
	rp := func() kyber.Point { _, p := newKey(); return p }

	// the key switch
	rel := relation{{"viB", []string{"vi", "B"}}, {"K", []string{"k", "B"}}, {"ks2", []string{"k", "rBNeg", "vi", "Q"}}}
	for _, x := range rel.relaxations() {
		pts := map[string]kyber.Point{"B": B, "rBNeg": rp(), "Q": rp()}
		prf := x.prove(t, rel, map[string]kyber.Scalar{"vi": sc(), "k": sc()}, pts, func() {})
		p := libunlynxkeyswitch.PublishedKSProof{Proof: prf, K: pts["K"], ViB: pts["viB"], Ks2: pts["ks2"], RbNeg: pts["rBNeg"], Q: pts["Q"]}
		rejected(t, "ks:relaxed-"+x.name, "key switch, a proof of less: "+x.name,
			func() bool { return libunlynxkeyswitch.KeySwitchProofVerification(p) },
			func() bool {
				return libunlynxkeyswitch.KeySwitchListProofVerification(libunlynxkeyswitch.PublishedKSListProof{List: []libunlynxkeyswitch.PublishedKSProof{p}}, 1)
			})
	}

	// the tag
	rel = relation{{"ci1", []string{"s", "ciminus11"}}, {"K", []string{"k", "B"}}, {"ci2", []string{"s", "ciminus12", "k", "ciminus11Si"}}, {"SB", []string{"s", "B"}}}
	for _, x := range rel.relaxations() {
		pts := map[string]kyber.Point{"B": B, "ciminus11": rp(), "ciminus12": rp()}
		prf := x.prove(t, rel, map[string]kyber.Scalar{"k": sc(), "s": sc()}, pts, func() {
			pts["ciminus11Si"] = su.Point().Neg(pts["ci1"])
		})
		p := libunlynxdetertag.PublishedDDTCreationProof{Proof: prf, Ciminus11Si: pts["ciminus11Si"],
			CTbef: libunlynx.CipherText{K: pts["ciminus11"], C: pts["ciminus12"]}, CTaft: libunlynx.CipherText{K: pts["ci1"], C: pts["ci2"]}}
		rejected(t, "tag:relaxed-"+x.name, "tag, a proof of less: "+x.name,
			func() bool { return libunlynxdetertag.DeterministicTagCrProofVerification(p, pts["K"], pts["SB"]) },
			func() bool {
				return libunlynxdetertag.DeterministicTagCrListProofVerification(libunlynxdetertag.PublishedDDTCreationListProof{
					List: []libunlynxdetertag.PublishedDDTCreationProof{p}, K: pts["K"], SB: pts["SB"]}, 1)
			})
	}

	// adding and removing a server
	rel = relation{{"Krm", []string{"k", "B"}}, {"c2", []string{"k", "rB"}}}
	for _, toAdd := range []bool{true, false} {
		toAdd := toAdd
		for _, x := range rel.relaxations() {
			pts := map[string]kyber.Point{"B": B, "rB": rp()}
			prf := x.prove(t, rel, map[string]kyber.Scalar{"k": sc()}, pts, func() {})
			lo := libunlynx.CipherText{K: pts["rB"], C: rp()}
			hi := libunlynx.CipherText{K: pts["rB"], C: su.Point().Add(lo.C, pts["c2"])}
			p := libunlynxaddrm.PublishedAddRmProof{Proof: prf, RB: pts["rB"], CtBef: lo, CtAft: hi}
			if !toAdd {
				p.CtBef, p.CtAft = hi, lo
			}
			rejected(t, "addrm:relaxed-"+x.name, fmt.Sprintf("add/remove (add: %v), a proof of less: %s", toAdd, x.name),
				func() bool { return libunlynxaddrm.AddRmProofVerification(p, pts["Krm"], toAdd) },
				func() bool {
					return libunlynxaddrm.AddRmListProofVerification(libunlynxaddrm.PublishedAddRmListProof{
						List: []libunlynxaddrm.PublishedAddRmProof{p}, Krm: pts["Krm"], ToAdd: toAdd}, 1)
				})
		}
	}

	// the addition of the blinding to a tag
	rel = relation{{"c2", []string{"s", "B"}}}
	for _, name := range []string{"another-base", "another-sum"} {
		x := relaxation{name, rel.clone(), nil}
		pts := map[string]kyber.Point{"B": B}
		if name == "another-base" {
			pts["B"] = rp()
		}
		prf := x.prove(t, rel, map[string]kyber.Scalar{"s": sc()}, pts, func() {})
		c1 := rp()
		r := su.Point().Add(c1, pts["c2"])
		if name == "another-sum" {
			r = su.Point().Add(r, pts["c2"])
		}
		p := libunlynxdetertag.PublishedDDTAdditionProof{Proof: prf, C1: c1, C2: pts["c2"], R: r}
		rejected(t, "addition:relaxed-"+name, "tag addition, a proof of less: "+name,
			func() bool { return libunlynxdetertag.DeterministicTagAdditionProofVerification(p) },
			func() bool {
				return libunlynxdetertag.DeterministicTagAdditionListProofVerification(libunlynxdetertag.PublishedDDTAdditionListProof{
					List: []libunlynxdetertag.PublishedDDTAdditionProof{p}}, 1)
			})
	}
}
