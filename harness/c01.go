package main

import (
	"fmt"
	"sync"

	libunlynx "github.com/ldsec/unlynx/lib"
	"go.dedis.ch/kyber/v3"
)

func init() {
	register(&Check{
		ID:   "C01",
		Rule: "a case is a history of decryptions in one (often fresh) process: values of both signs and all magnitudes, single/vector/signed/zero-test entry points, out-of-range values and concurrent goroutines, each answer compared with the integer that was encrypted; an evaluation is one decryption and is non-trivial when it follows at least one other decryption in its process (distinct by value, entry point and class of its predecessor)",
		Assumptions: []string{
			"0 is the documented 'not found' answer of the unsigned decryption for a negative value and of both for a value outside the range",
		},
		Cases: c01Cases,
	})
}

type decOp struct {
	v    int64
	kind int // 0 DecryptInt, 1 DecryptIntWithNeg, 2 vector, 3 vector neg, 4 zero check, 5 table creation
	vec  []int64
}

func inRange(v int64) bool {
	return v > -libunlynx.MaxHomomorphicInt && v < libunlynx.MaxHomomorphicInt
}

// c01Do performs one operation and judges its result.
func c01Do(t *T, sk kyber.Scalar, pk kyber.Point, op decOp, ctx string) {
	judge := func(v int64, signed bool, got int64, how string) {
		t.Count("decryptions", 1)
		ok := got == v
		if !inRange(v) && v != libunlynx.MaxHomomorphicInt && v != -libunlynx.MaxHomomorphicInt {
			ok = got == 0
			t.Count("out_of_range_decryptions", 1)
		} else if v < 0 && !signed {
			ok = got == 0
		} else if v == libunlynx.MaxHomomorphicInt || v == -libunlynx.MaxHomomorphicInt {
			ok = got == v || got == 0
		}
		t.Check(ok, "wrong-decryption:"+how, "%s of an encryption of %d gave %d (%s)", how, v, got, ctx)
	}
	switch op.kind {
	case 0:
		judge(op.v, false, libunlynx.DecryptInt(sk, encWith(pk, op.v)), "DecryptInt")
	case 1:
		judge(op.v, true, libunlynx.DecryptIntWithNeg(sk, encWith(pk, op.v)), "DecryptIntWithNeg")
	case 2, 3:
		cv := libunlynx.EncryptIntVector(pk, op.vec)
		vec := append([]int64(nil), op.vec...)
		if len(vec) > 1 && t.R.Intn(2) == 0 {
			// the same ciphertext at several places
			for k := t.R.Intn(len(vec)); k >= 0; k-- {
				i := t.R.Intn(len(vec))
				j := []int{0, maxInt(i-1, 0), t.R.Intn(len(vec))}[t.R.Intn(3)]
				(*cv)[i], vec[i] = cloneCT((*cv)[j]), vec[j]
			}
			t.Count("vectors_with_repeated_ciphertexts", 1)
		}
		var got []int64
		how := "DecryptIntVector"
		if op.kind == 2 {
			got = libunlynx.DecryptIntVector(sk, cv)
		} else {
			how = "DecryptIntVectorWithNeg"
			got = libunlynx.DecryptIntVectorWithNeg(sk, cv)
		}
		if !t.Check(len(got) == len(op.vec), "vector-length", "%s of %d elements gave %d", how, len(op.vec), len(got)) {
			return
		}
		for i := range got {
			judge(vec[i], op.kind == 3, got[i], how)
		}
	case 4:
		want := int64(1)
		if op.v == 0 {
			want = 0
		}
		got := libunlynx.DecryptCheckZero(sk, encWith(pk, op.v))
		t.Check(got == want, "zero-check", "zero test of %d gave %d", op.v, got)
		vec := []int64{op.v, 0, 3, -1}
		cv := encVec(pk, vec)
		wants := []int64{want, 0, 1, 1}
		for k := t.R.Intn(6); k > 0; k-- {
			j := []int{len(cv) - 1, t.R.Intn(len(cv))}[t.R.Intn(2)]
			cv, vec, wants = append(cv, cloneCT(cv[j])), append(vec, vec[j]), append(wants, wants[j])
		}
		g := libunlynx.DecryptCheckZeroVector(sk, &cv)
		t.Check(eqInts(g, wants), "zero-check", "vector zero test of %v gave %v", vec, g)
	case 5:
		libunlynx.CreateDecryptionTable(op.v, pk, sk)
	}
}

func (o decOp) String() string {
	if o.vec != nil {
		return fmt.Sprintf("%d%v", o.kind, o.vec)
	}
	return fmt.Sprintf("%d(%d)", o.kind, o.v)
}

func class(o decOp) string {
	v := o.v
	if o.vec != nil {
		return fmt.Sprintf("k%dlen%d", o.kind, len(o.vec))
	}
	s := "+"
	if v < 0 {
		s, v = "-", -v
	}
	m := 0
	for v > 0 {
		v /= 4
		m++
	}
	return fmt.Sprintf("k%d%s%d", o.kind, s, m)
}

func c01Random(t *T, lim int64) decOp {
	v := t.R.Int63n(lim)
	switch t.R.Intn(6) {
	case 0:
		v = t.R.Int63n(20)
	case 1:
		v = 0
	}
	op := decOp{kind: t.R.Intn(6)}
	if op.kind == 5 && t.R.Intn(3) > 0 {
		op.kind = 1
	}
	if op.kind != 5 && t.R.Intn(2) == 0 {
		v = -v
	}
	op.v = v
	if op.kind == 2 || op.kind == 3 {
		n := []int{0, 1, 2, 7, 99, 100, 101}[t.R.Intn(7)]
		op.vec = make([]int64, n)
		for i := range op.vec {
			op.vec[i] = t.R.Int63n(lim)
			if op.kind == 3 && t.R.Intn(2) == 0 {
				op.vec[i] = -op.vec[i]
			}
		}
	}
	return op
}

func c01Cases(tier string, seed int64) []Case {
	var out []Case
	nh, nops := 16, 40
	if tier == "thorough" {
		nh, nops = 160, 90
	}
	// hand-picked orders that cross the sign and range boundaries
	fixed := [][]decOp{
		{{v: 100, kind: 0}, {v: -5, kind: 1}, {v: -100, kind: 1}, {v: 5, kind: 1}, {v: 101, kind: 0}, {v: -101, kind: 1}},
		{{v: -5, kind: 0}, {v: -5, kind: 1}, {v: -5, kind: 0}, {v: 7, kind: 0}, {v: -7, kind: 1}},
		{{v: -60, kind: 1}, {v: -60, kind: 0}, {v: 60, kind: 1}, {v: 60, kind: 0}, {v: -60, kind: 1}, {v: 61, kind: 1}, {v: -61, kind: 0}},
		{{v: 0, kind: 1}, {v: 0, kind: 0}, {v: -1, kind: 1}, {v: 1, kind: 0}, {v: 1, kind: 1}, {v: 2, kind: 0}, {v: -3, kind: 1}},
		{{v: 50, kind: 5}, {v: -50, kind: 1}, {v: 50, kind: 0}, {v: -49, kind: 1}, {v: 51, kind: 0}},
		{{v: -40, kind: 1}, {v: 39, kind: 0}, {v: 40, kind: 0}, {v: 41, kind: 0}, {v: -41, kind: 1}, {v: 1000, kind: 0}, {v: -999, kind: 1}},
	}
	for i, f := range fixed {
		f := f
		out = append(out, Case{Name: fmt.Sprintf("order-%d", i), Fresh: true, Cost: 1, Run: func(t *T) {
			sk, pk := newKey()
			prev := "start"
			for k, op := range f {
				c01Do(t, sk, pk, op, fmt.Sprintf("after %v", f[:k]))
				t.Nontrivial("%s after %s", op, prev)
				prev = class(op)
			}
			t.Sample("history %v", f)
		}})
	}
	for i := 0; i < nh; i++ {
		i := i
		out = append(out, Case{Name: fmt.Sprintf("history-%d", i), Fresh: true, Cost: 2, Run: func(t *T) {
			lim := []int64{30, 300, 3000}[i%3]
			sk, pk := newKey()
			if i%2 == 0 {
				g, ss, _ := libunlynx.GenKeys(1 + i%5)
				sum := suite.Scalar().Zero()
				for _, s := range ss {
					sum.Add(sum, s)
				}
				sk, pk = sum, g
			}
			prev := "start"
			var hist []string
			var last decOp
			for k := 0; k < nops; k++ {
				op := c01Random(t, lim)
				if k > 0 && last.vec == nil && t.R.Intn(3) == 0 {
					// the same magnitude again, some other way
					op = decOp{v: last.v, kind: []int{0, 1, 0, 1, 4, 2, 3}[t.R.Intn(7)]}
					if t.R.Intn(2) == 0 {
						op.v = -op.v
					}
					if op.kind == 2 || op.kind == 3 {
						op.vec = []int64{op.v, -op.v, op.v}
					}
				}
				last = op
				c01Do(t, sk, pk, op, "after "+prev)
				if k > 0 {
					t.Nontrivial("%s after %s", class(op), prev)
				} else {
					t.Trivial()
				}
				prev = class(op)
				if k < 8 {
					hist = append(hist, trim(op.String(), 40))
				}
			}
			t.Sample("history %v ...", hist)
		}})
	}
	nc := 6
	if tier == "thorough" {
		nc = 40
	}
	for i := 0; i < nc; i++ {
		i := i
		out = append(out, Case{Name: fmt.Sprintf("concurrent-%d", i), Fresh: true, Cost: 4, Procs: []int{8, 2, 4}[i%3], Run: func(t *T) {
			sk, pk := newKey()
			var wg sync.WaitGroup
			type job struct{ ops []decOp }
			jobs := make([]job, 8)
			for g := range jobs {
				for k := 0; k < nops/2; k++ {
					jobs[g].ops = append(jobs[g].ops, c01Random(t, 800))
				}
			}
			for g := range jobs {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					if p := noPanic(func() {
						for _, op := range jobs[g].ops {
							c01Do(t, sk, pk, op, "8 goroutines")
							t.Nontrivial("conc%d %s", i, class(op))
						}
					}); p != "" {
						t.Fail("panic", "%s", p)
					}
				}(g)
			}
			wg.Wait()
		}})
	}
	// the first decryptions of a process, at the same time and far apart
	for i := 0; i < nc; i++ {
		i := i
		out = append(out, Case{Name: fmt.Sprintf("concurrent-first-%d", i), Fresh: true, Cost: 6, Procs: []int{4, 8, 2}[i%3], Run: func(t *T) {
			sk, pk := newKey()
			n := []int{3, 8, 16}[i%3]
			bar := newBarrier(n)
			var wg sync.WaitGroup
			for g := 0; g < n; g++ {
				var ops []decOp
				for k := 0; k < 3; k++ {
					op := decOp{v: t.R.Int63n(12000 * int64(k+1)), kind: t.R.Intn(2)}
					if op.kind == 1 && t.R.Intn(2) == 0 {
						op.v = -op.v
					}
					ops = append(ops, op)
				}
				f := t.fork()
				wg.Add(1)
				go func() {
					defer wg.Done()
					bar.wait()
					if p := noPanic(func() {
						for _, op := range ops {
							c01Do(f, sk, pk, op, fmt.Sprintf("%d goroutines, first use", n))
							f.Nontrivial("first%d %s", i, class(op))
						}
					}); p != "" {
						f.Fail("panic", "%s", p)
					}
				}()
			}
			wg.Wait()
		}})
	}
	// the ends of the range, and outside it
	M := libunlynx.MaxHomomorphicInt
	ends := [][]decOp{
		{{v: M - 1, kind: 0}, {v: -(M - 1), kind: 1}, {v: M - 1, kind: 1}, {v: M + 1, kind: 0}, {v: 77, kind: 0}, {v: -77, kind: 1}},
		{{v: M + 1, kind: 1}, {v: 3, kind: 0}, {v: -(M + 1), kind: 1}, {v: 2*M + 5, kind: 0}, {v: M - 2, kind: 0}, {v: M, kind: 0}, {v: -(M - 2), kind: 1}},
		{{v: -(M + 7), kind: 0}, {v: M - 1, kind: 0}, {v: 12345, kind: 1}, {v: -54321, kind: 1}, {v: 54321, kind: 0}},
		{{v: -60000, kind: 1}, {v: 70000, kind: 0}, {v: -70000, kind: 1}, {v: 70001, kind: 0}, {v: 5, kind: 0}},
	}
	for i, f := range ends {
		f := f
		out = append(out, Case{Name: fmt.Sprintf("range-end-%d", i), Fresh: true, Cost: 20, Run: func(t *T) {
			sk, pk := newKey()
			prev := "start"
			for k, op := range f {
				c01Do(t, sk, pk, op, fmt.Sprintf("after %v", f[:k]))
				t.Nontrivial("%s after %s", op, prev)
				prev = class(op)
			}
		}})
	}
	// encryption entry points against the oracle's own arithmetic
	for _, n := range []int{0, 1, 2, 99, 100, 101, 199, 200, 201, 250} {
		n := n
		out = append(out, Case{Name: fmt.Sprintf("encrypt-%d", n), Cost: 0.5, Run: func(t *T) {
			sk, pk := libunlynx.GenKey()
			t.Check(suite.Point().Mul(sk, nil).Equal(pk), "keypair", "public key is not secret*B")
			ms := randInts(t.R, n, 500)
			for i := range ms {
				if t.R.Intn(3) == 0 {
					ms[i] = -ms[i]
				}
			}
			orig := append([]int64{}, ms...)
			a := libunlynx.EncryptIntVector(pk, ms)
			b, rs := libunlynx.EncryptIntVectorGetRs(pk, ms)
			scs := make([]kyber.Scalar, n)
			for i := range scs {
				scs[i] = suite.Scalar().SetInt64(ms[i])
			}
			c := libunlynx.EncryptScalarVector(pk, scs)
			d := libunlynx.NullCipherVector(n, pk)
			e := libunlynx.IntArrayToCipherVector(ms)
			t.Check(eqInts(orig, ms), "operand-changed", "encryption changed its input")
			t.Check(eqInts(openVec(sk, *a), ms), "encrypt", "EncryptIntVector(%d values) decrypts to something else", n)
			t.Check(eqInts(openVec(sk, *b), ms), "encrypt", "EncryptIntVectorGetRs(%d values) decrypts to something else", n)
			t.Check(len(rs) == n, "encrypt", "EncryptIntVectorGetRs returned %d randoms for %d values", len(rs), n)
			for i := range rs {
				ok := suite.Point().Mul(rs[i], nil).Equal((*b)[i].K)
				t.Check(ok, "encrypt", "returned randomness %d is not that of ciphertext %d", i, i)
			}
			t.Check(eqInts(openVec(sk, *c), ms), "encrypt", "EncryptScalarVector(%d values) decrypts to something else", n)
			t.Check(eqInts(openVec(sk, *d), make([]int64, n)), "encrypt", "NullCipherVector(%d) is not all zero", n)
			t.Check(eqInts(openVec(sk, e), ms), "encrypt", "IntArrayToCipherVector wrong")
			for i := range ms {
				if i > 3 {
					break
				}
				p1 := libunlynx.EncryptInt(pk, ms[i])
				p2, r := libunlynx.EncryptIntGetR(pk, ms[i])
				p3 := libunlynx.EncryptScalar(pk, scs[i])
				p4 := libunlynx.IntToCipherText(ms[i])
				t.Check(isEnc(sk, p1, ms[i]) && isEnc(sk, p2, ms[i]) && isEnc(sk, p3, ms[i]) && isEnc(sk, &p4, ms[i]), "encrypt", "single encryption of %d wrong", ms[i])
				t.Check(suite.Point().Mul(r, nil).Equal(p2.K), "encrypt", "EncryptIntGetR randomness wrong")
				t.Check(libunlynx.IntToPoint(ms[i]).Equal(pt(ms[i])), "encrypt", "IntToPoint(%d)", ms[i])
			}
			t.Nontrivial("encrypt n=%d", n)
		}})
	}
	return out
}
