package main

import (
	"fmt"
	"sync"
	"time"

	libunlynx "github.com/ldsec/unlynx/lib"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
)

func init() {
	register(&Check{
		ID:    "C14",
		Rule:  "a case re-keys lists of 0 to several hundred ciphertexts (fresh, clear, null, repeated; negative and large plaintexts) for a joining or a leaving server on real servers, with and without proofs, alone, as a chain of additions and removals, or with many re-keyings at the same time, and opens every ciphertext under the new key with the oracle's own group arithmetic; an evaluation is one re-keying, non-trivial when it has a ciphertext (distinct by direction, size, kind of values, proofs and surroundings)",
		Cases: c14Cases,
	})
}

// rekey is one list of ciphertexts under a key, with what it holds.
type rekey struct {
	sk kyber.Scalar
	ms []int64
	cv libunlynx.CipherVector
}

func newRekey(t *T, n int, vals string) *rekey {
	r := &rekey{}
	var pub kyber.Point
	r.sk, pub = newKey()
	r.cv, r.ms = proofInputs(t, pub, n, vals)
	return r
}

// special replaces the ciphertexts by encryptions, with randomness chosen for that, whose components are the neutral
// element, the base point, equal, or opposite, and gives a server's key that is small or near to the other one.
func (r *rekey) special(t *T, add bool) kyber.Scalar {
	inv := suite.Scalar().Inv(r.sk)
	one := suite.Scalar().One()
	for i := range r.cv {
		m := suite.Scalar().SetInt64(r.ms[i])
		var x kyber.Scalar
		switch i % 6 {
		case 0: // C neutral
			x = suite.Scalar().Mul(suite.Scalar().Neg(m), inv)
		case 1: // C the base point
			x = suite.Scalar().Mul(suite.Scalar().Sub(one, m), inv)
		case 2: // C = K
			x = suite.Scalar().Mul(m, suite.Scalar().Inv(suite.Scalar().Sub(one, r.sk)))
		case 3: // C = -K
			x = suite.Scalar().Mul(suite.Scalar().Neg(m), suite.Scalar().Inv(suite.Scalar().Add(one, r.sk)))
		case 4: // K the base point
			x = one
		default: // K = -B
			x = suite.Scalar().Neg(one)
		}
		r.cv[i].K = suite.Point().Mul(x, nil)
		r.cv[i].C = suite.Point().Mul(suite.Scalar().Add(m, suite.Scalar().Mul(x, r.sk)), nil)
		if !isEnc(r.sk, &r.cv[i], r.ms[i]) {
			panic("special: wrong ciphertext")
		}
	}
	keys := []kyber.Scalar{one, suite.Scalar().SetInt64(2), suite.Scalar().Neg(one), suite.Scalar().Add(r.sk, one), inv}
	if add {
		keys = append(keys, suite.Scalar().Set(r.sk))
	}
	return keys[t.R.Intn(len(keys))]
}

func c14One(t *T, cl *cluster, tr *onet.Tree, n int, vals string, add, proofs bool) {
	r := newRekey(t, n, vals)
	k, _ := newKey()
	if vals == "special" {
		k = r.special(t, add)
	}
	j, out := armJob(t, cl, tr, r.sk, k, r.cv, r.ms, add, proofs, vals)
	j.run(t, 0)
	if n > 0 {
		t.Nontrivial("%v/%d/%s/%v", add, n, vals, proofs)
	} else {
		t.Trivial()
	}
	// and back
	if len(*out) != n {
		return
	}
	sk := suite.Scalar().Add(r.sk, k)
	if !add {
		sk = suite.Scalar().Sub(r.sk, k)
	}
	j, _ = armJob(t, cl, tr, sk, k, *out, r.ms, !add, proofs, vals+" and back")
	j.run(t, 0)
	if n > 0 {
		t.Nontrivial("back/%v/%d/%s/%v", add, n, vals, proofs)
	} else {
		t.Trivial()
	}
}

// c14Chain adds and removes several servers in any order.
func c14Chain(t *T, cl *cluster, tr *onet.Tree, n, steps int) {
	r := newRekey(t, n, "mixed")
	orig := vecBytes(r.cv)
	cur, sk := r.cv, r.sk
	var in []kyber.Scalar
	hist := ""
	for i := 0; i < steps; i++ {
		var k kyber.Scalar
		add := len(in) == 0 || (t.R.Intn(2) == 0 && i+len(in) < steps)
		if add {
			k, _ = newKey()
			in = append(in, k)
		} else {
			x := t.R.Intn(len(in))
			k = in[x]
			in = append(in[:x:x], in[x+1:]...)
		}
		hist += map[bool]string{true: "+", false: "-"}[add]
		j, out := armJob(t, cl, tr, sk, k, cur, r.ms, add, i%3 == 0, "chain "+hist)
		j.run(t, 0)
		if len(*out) != n {
			return
		}
		cur = *out
		if add {
			sk = suite.Scalar().Add(sk, k)
		} else {
			sk = suite.Scalar().Sub(sk, k)
		}
		t.Nontrivial("chain/%s/%d", hist, n)
	}
	t.Check(vecBytes(r.cv) == orig, "input-changed", "chain %s of %d ciphertexts changes the original list", hist, n)
	for i := range r.cv {
		if !t.Check(isEnc(r.sk, &r.cv[i], r.ms[i]), "input-changed", "chain %s: original ciphertext %d no longer holds %d", hist, i, r.ms[i]) {
			break
		}
	}
}

// c14Many re-keys many lists, or the same list for many servers, at once.
func c14Many(t *T, m, n int, same, sameKey bool) {
	var jobs []*utilJob
	var ts []*T
	shared := newRekey(t, n, "mixed")
	before := vecBytes(shared.cv)
	one, _ := newKey()
	oneBefore := one.String()
	for i := 0; i < m; i++ {
		cl := getCluster(1 + i%3)
		_, tr := cl.distinctTree("star", t.R, map[onet.TreeID]bool{})
		r := shared
		if !same {
			r = newRekey(t, t.R.Intn(n+1), []string{"fresh", "mixed", "repeat"}[i%3])
		}
		k, _ := newKey()
		if sameKey {
			k = one // the server joins some groups and leaves others
		}
		f := t.fork()
		j, _ := armJob(f, cl, tr, r.sk, k, r.cv, r.ms, t.R.Intn(2) == 0, i%4 == 0, fmt.Sprintf("%d at once (same list: %v, same server: %v)", m, same, sameKey))
		jobs, ts = append(jobs, j), append(ts, f)
	}
	bar := newBarrier(m)
	var wg sync.WaitGroup
	for _, i := range t.R.Perm(m) {
		i, late := i, time.Duration(t.R.Intn(3))*5*time.Millisecond
		wg.Add(1)
		go func() {
			defer wg.Done()
			bar.wait()
			jobs[i].run(ts[i], late)
		}()
	}
	wg.Wait()
	t.Check(vecBytes(shared.cv) == before, "input-changed", "%d re-keyings at once change the list they share", m)
	t.Check(one.String() == oneBefore, "input-changed", "%d re-keyings at once change the secret key they share", m)
	t.Count("re-keyings at the same time", int64(m))
	for i := range jobs {
		t.Nontrivial("many/%d/%d/%v/%v/%d", m, n, same, sameKey, i)
	}
}

func c14Cases(tier string, seed int64) []Case {
	var out []Case
	sizes := []int{0, 1, 2, 3, 10, 99, 100, 101, 250}
	reps := 1
	if tier == "thorough" {
		sizes = []int{0, 1, 2, 3, 4, 5, 7, 10, 33, 50, 64, 99, 100, 101, 128, 199, 200, 201, 300, 555, 1000}
		reps = 6
	}
	for rep := 0; rep < reps; rep++ {
		for _, n := range sizes {
			n := n
			for _, vals := range []string{"fresh", "mixed", "null", "clear", "repeat", "special"} {
				vals := vals
				if n > 3 && !(vals == "special" && n < 20) && n != 100 && n != 101 && vals != "mixed" && tier != "thorough" {
					continue
				}
				out = append(out, Case{Name: fmt.Sprintf("one-%d-%s-%d", n, vals, rep), Cost: 0.3 + float64(n)*0.012, Run: func(t *T) {
					rounds := 4
					if vals == "special" {
						rounds = 8
					}
					for i := 0; i < rounds; i++ {
						cl := getCluster(1 + t.R.Intn(3))
						_, tr := cl.distinctTree(treeKinds[t.R.Intn(len(treeKinds))], t.R, map[onet.TreeID]bool{})
						c14One(t, cl, tr, n, vals, i%2 == 0, i/2%2 == 0)
					}
				}})
			}
		}
		for i := 0; i < 4; i++ {
			n, steps := []int{1, 5, 20, 102}[i], []int{8, 8, 6, 3}[i]
			out = append(out, Case{Name: fmt.Sprintf("chain-%d-%d", n, rep), Cost: 1, Run: func(t *T) {
				cl := getCluster(2)
				_, tr := cl.distinctTree("binary", t.R, map[onet.TreeID]bool{})
				c14Chain(t, cl, tr, n, steps)
			}})
		}
		for i := 0; i < 6; i++ {
			m, n, same := []int{2, 4, 8, 16, 32, 12}[i], []int{30, 120, 20, 10, 5, 40}[i], i%2 == 1
			out = append(out, Case{Name: fmt.Sprintf("many-%d-%d", m, rep), Cost: 3, Procs: 4, Run: func(t *T) {
				for r := 0; r < 4; r++ {
					c14Many(t, m, n, same, r%2 == 1)
				}
			}})
		}
	}
	return out
}
