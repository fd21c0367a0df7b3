package main

import (
	"fmt"
	"sync"

	libunlynx "github.com/ldsec/unlynx/lib"
	"go.dedis.ch/kyber/v3"
)

func init() {
	register(&Check{
		ID:    "C02",
		Rule:  "a case runs every exported homomorphic operation, or a random program of them over a pool of shared vectors (receivers aliasing operands included), or a secret split; every result is opened with the harness's own group arithmetic against integer arithmetic and every operand, key and scalar is compared byte for byte with its snapshot; an evaluation is one operation, non-trivial when it has at least one element (distinct by operation, length and operand plaintexts)",
		Cases: c02Cases,
	})
}

var lens = []int{0, 1, 2, 3, 50, 99, 100, 101, 150, 199, 200, 201, 250, 299, 301}

// checkVec compares a vector with the integers it must encrypt.
func checkVec(t *T, sk kyber.Scalar, v libunlynx.CipherVector, want []int64, key, what string) bool {
	if !t.Check(len(v) == len(want), key, "%s: %d elements instead of %d", what, len(v), len(want)) {
		return false
	}
	for i := range v {
		if !isEnc(sk, &v[i], want[i]) {
			t.Count("oracle_checks", 1)
			got := "not a small integer"
			if v[i].K == nil || v[i].C == nil {
				got = "missing"
			} else if g := open(sk, &v[i]); g != badPlain {
				got = fmt.Sprint(g)
			}
			t.Fail(key, "%s: element %d of %d decrypts to %s instead of %d", what, i, len(v), got, want[i])
			return false
		}
	}
	t.Count("oracle_checks", int64(len(v)))
	return true
}

func mapInts(a, b []int64, f func(x, y int64) int64) []int64 {
	out := make([]int64, len(a))
	for i := range a {
		out[i] = f(a[i], b[i])
	}
	return out
}

func c02Ops(t *T, n int) {
	sk, pk := newKey()
	a, b := randInts(t.R, n, 3000), randInts(t.R, n, 3000)
	for i := range a {
		if t.R.Intn(3) == 0 {
			a[i] = -a[i]
		}
		if t.R.Intn(3) == 0 {
			b[i] = -b[i]
		}
	}
	ea, eb := t.encVec(pk, a), t.encVec(pk, b)
	sa, sb := vecBytes(ea), vecBytes(eb)
	skS, pkS := sk.String(), ps(pk)
	intact := func(what string) {
		t.Check(vecBytes(ea) == sa && vecBytes(eb) == sb, "operand-changed:"+what, "%s changed an operand (length %d)", what, n)
		t.Check(sk.String() == skS && ps(pk) == pkS, "key-changed:"+what, "%s changed the key", what)
		t.Nontrivial("%s/%d/%v", what, n, a)
		if n == 0 {
			return
		}
	}

	r := libunlynx.NewCipherVector(n)
	r.Add(ea, eb)
	checkVec(t, sk, *r, mapInts(a, b, func(x, y int64) int64 { return x + y }), "vector-add", "CipherVector.Add")
	intact("CipherVector.Add")
	r2 := libunlynx.NewCipherVector(n)
	r2.Sub(ea, eb)
	checkVec(t, sk, *r2, mapInts(a, b, func(x, y int64) int64 { return x - y }), "vector-sub", "CipherVector.Sub")
	intact("CipherVector.Sub")
	// result kept in a copied header: the receiver shares its array with a copy
	sh := cloneVec(ea)
	sh.Add(sh, eb)
	checkVec(t, sk, sh, mapInts(a, b, func(x, y int64) int64 { return x + y }), "vector-add", "CipherVector.Add into its operand")
	intact("CipherVector.Add(aliased)")
	sh2 := cloneVec(eb)
	sh2.Sub(ea, sh2)
	checkVec(t, sk, sh2, mapInts(a, b, func(x, y int64) int64 { return x - y }), "vector-sub", "CipherVector.Sub into its operand")
	intact("CipherVector.Sub(aliased)")
	// every way of sharing between the receiver and the operands
	add := func(x, y int64) int64 { return x + y }
	sub := func(x, y int64) int64 { return x - y }
	for _, o := range []string{"Add", "Sub"} {
		f := map[string]func(int64, int64) int64{"Add": add, "Sub": sub}[o]
		do := func(r *libunlynx.CipherVector, x, y libunlynx.CipherVector) {
			if o == "Add" {
				r.Add(x, y)
			} else {
				r.Sub(x, y)
			}
		}
		x, y := cloneVec(ea), cloneVec(eb)
		do(&y, x, y)
		checkVec(t, sk, y, mapInts(a, b, f), "vector-alias", "CipherVector."+o+" into its second operand")
		t.Check(vecBytes(x) == sa, "operand-changed:alias", "CipherVector.%s into its second operand changed the first", o)
		x, y = cloneVec(ea), cloneVec(eb)
		do(&x, x, y)
		checkVec(t, sk, x, mapInts(a, b, f), "vector-alias", "CipherVector."+o+" into its first operand")
		t.Check(vecBytes(y) == sb, "operand-changed:alias", "CipherVector.%s into its first operand changed the second", o)
		x = cloneVec(ea)
		do(&x, x, x)
		checkVec(t, sk, x, mapInts(a, a, f), "vector-alias", "CipherVector."+o+" of itself into itself")
		// a receiver in use elsewhere, element by element
		x = append(cloneVec(eb), encWith(pk, 9))
		old := append(libunlynx.CipherVector{}, x...)
		was := vecBytes(old)
		do(&x, ea, eb)
		checkVec(t, sk, x[:n], mapInts(a, b, f), "vector-alias", "CipherVector."+o+" into a used, longer receiver")
		t.Check(isEnc(sk, &x[n], 9), "vector-alias", "CipherVector.%s changed what is beyond the operands", o)
		t.Check(vecBytes(old) == was, "operand-changed:alias", "CipherVector.%s changed ciphertexts its receiver held before", o)
		if n > 0 {
			i := t.R.Intn(n)
			cop := func(r *libunlynx.CipherText, x, y libunlynx.CipherText) {
				if o == "Add" {
					r.Add(x, y)
				} else {
					r.Sub(x, y)
				}
			}
			u, v := cloneCT(ea[i]), cloneCT(eb[i])
			keep := v // another holder of the same points
			cop(&v, u, v)
			t.Check(isEnc(sk, &v, f(a[i], b[i])), "alias", "CipherText.%s into its second operand", o)
			t.Check(isEnc(sk, &u, a[i]) && isEnc(sk, &keep, b[i]), "operand-changed:alias", "CipherText.%s changed points held elsewhere", o)
			u, v = cloneCT(ea[i]), cloneCT(eb[i])
			keep = u
			cop(&u, u, v)
			t.Check(isEnc(sk, &u, f(a[i], b[i])), "alias", "CipherText.%s into its first operand", o)
			t.Check(isEnc(sk, &v, b[i]) && isEnc(sk, &keep, a[i]), "operand-changed:alias", "CipherText.%s changed points held elsewhere", o)
			cop(&u, u, u)
			t.Check(isEnc(sk, &u, f(f(a[i], b[i]), f(a[i], b[i]))), "alias", "CipherText.%s of itself", o)
		}
	}
	if n > 0 {
		fr := libunlynx.FilteredResponse{GroupByEnc: cloneVec(eb), AggregatingAttributes: cloneVec(ea)}
		fo := libunlynx.FilteredResponse{GroupByEnc: cloneVec(eb), AggregatingAttributes: cloneVec(eb)}
		fr.Add(fr, fo)
		checkVec(t, sk, fr.AggregatingAttributes, mapInts(a, b, add), "response-alias", "FilteredResponse.Add into its first operand")
		checkVec(t, sk, fo.AggregatingAttributes, b, "response-alias", "second operand of FilteredResponse.Add")
		fr = libunlynx.FilteredResponse{GroupByEnc: cloneVec(eb), AggregatingAttributes: cloneVec(ea)}
		fo.Add(fr, fo)
		checkVec(t, sk, fo.AggregatingAttributes, mapInts(a, b, add), "response-alias", "FilteredResponse.Add into its second operand")
		checkVec(t, sk, fr.AggregatingAttributes, a, "response-alias", "first operand of FilteredResponse.Add")
		intact("aliases")
	}
	dbl := cloneVec(ea)
	dbl.Add(dbl, dbl)
	checkVec(t, sk, dbl, mapInts(a, a, func(x, y int64) int64 { return x + y }), "vector-add", "CipherVector.Add of itself")
	// elements of the result are independent objects of the operands
	shared := cloneVec(ea)
	res := libunlynx.NewCipherVector(n)
	res.Add(shared, eb)
	for i := range *res {
		(*res)[i].C.Add((*res)[i].C, pt(1))
		(*res)[i].K.Add((*res)[i].K, pt(1))
	}
	t.Check(vecBytes(shared) == sa, "result-aliases-operand", "changing the sum in place changed its operand")
	intact("CipherVector.Add(result)")

	for i := 0; i < n && i < 6; i++ {
		j := t.R.Intn(n)
		var c libunlynx.CipherText
		c.Add(ea[i], eb[j])
		t.Check(isEnc(sk, &c, a[i]+b[j]), "add", "CipherText.Add %d+%d", a[i], b[j])
		c.Sub(ea[i], eb[j])
		t.Check(isEnc(sk, &c, a[i]-b[j]), "sub", "CipherText.Sub %d-%d", a[i], b[j])
		for _, k := range []int64{0, 1, -1, 7, int64(t.R.Intn(100000))} {
			s := suite.Scalar().SetInt64(k)
			ss := s.String()
			c.MulCipherTextbyScalar(ea[i], s)
			t.Check(isEnc(sk, &c, a[i]*k), "scale", "MulCipherTextbyScalar %d*%d", a[i], k)
			t.Check(s.String() == ss, "scalar-changed", "scaling changed its scalar")
			d := cloneCT(ea[i])
			d.MulCipherTextbyScalar(d, s)
			t.Check(isEnc(sk, &d, a[i]*k), "scale", "MulCipherTextbyScalar in place %d*%d", a[i], k)
		}
		intact("CipherText ops")
	}
	sum := int64(0)
	for _, x := range a {
		sum += x
	}
	var ac libunlynx.CipherText
	if p := noPanic(func() { ac = ea.Acum() }); p != "" {
		t.Fail("acum-panic", "Acum of %d elements: %s", n, p)
	} else {
		t.Check(isEnc(sk, &ac, sum), "acum", "Acum of %d elements is not their sum", n)
	}
	intact("Acum")
	if n > 0 {
		// adding to the accumulated value afterwards must not reach back
		ac.Add(ac, eb[0])
		intact("Acum(result)")
	}
	_ = ea.Equal(&eb)
	intact("Equal")

	// encryption in all its forms
	t.Check(true, "", "")
	ev := libunlynx.EncryptIntVector(pk, a)
	checkVec(t, sk, *ev, a, "encrypt", "EncryptIntVector")
	evr, rs := libunlynx.EncryptIntVectorGetRs(pk, a)
	if checkVec(t, sk, *evr, a, "encrypt", "EncryptIntVectorGetRs") && t.Check(len(rs) == n, "encrypt-r", "EncryptIntVectorGetRs: %d randomness values for %d", len(rs), n) {
		for i := range rs {
			t.Check(rs[i] != nil && suite.Point().Mul(rs[i], nil).Equal((*evr)[i].K), "encrypt-r", "EncryptIntVectorGetRs: randomness %d of %d is not the one used", i, n)
		}
	}
	scal := make([]kyber.Scalar, n)
	for i := range scal {
		scal[i] = suite.Scalar().SetInt64(a[i])
	}
	checkVec(t, sk, *libunlynx.EncryptScalarVector(pk, scal), a, "encrypt", "EncryptScalarVector")
	for i := range scal {
		t.Check(scal[i].Equal(suite.Scalar().SetInt64(a[i])), "scalar-changed", "EncryptScalarVector changed its input")
	}
	checkVec(t, sk, *libunlynx.NullCipherVector(n, pk), make([]int64, n), "encrypt", "NullCipherVector")
	checkVec(t, sk, libunlynx.IntArrayToCipherVector(a), a, "encode", "IntArrayToCipherVector")
	checkVec(t, sk, *libunlynx.NewCipherVector(n), make([]int64, n), "encode", "NewCipherVector")
	for i := 0; i < n && i < 3; i++ {
		c := libunlynx.EncryptInt(pk, a[i])
		t.Check(isEnc(sk, c, a[i]), "encrypt", "EncryptInt(%d)", a[i])
		c, rr := libunlynx.EncryptIntGetR(pk, a[i])
		t.Check(isEnc(sk, c, a[i]) && suite.Point().Mul(rr, nil).Equal(c.K), "encrypt", "EncryptIntGetR(%d)", a[i])
		c = libunlynx.EncryptScalar(pk, scal[i])
		t.Check(isEnc(sk, c, a[i]), "encrypt", "EncryptScalar(%d)", a[i])
		d := libunlynx.IntToCipherText(a[i])
		t.Check(isEnc(sk, &d, a[i]), "encode", "IntToCipherText(%d)", a[i])
		p := pt(a[i])
		d = libunlynx.PointToCipherText(p)
		t.Check(isEnc(sk, &d, a[i]), "encode", "PointToCipherText(%d)", a[i])
		t.Check(libunlynx.IntToPoint(a[i]).Equal(pt(a[i])), "encode", "IntToPoint(%d)", a[i])
	}
	intact("Encrypt")

	// equality is component-wise
	if n > 0 {
		e2 := cloneVec(ea)
		t.Check(ea.Equal(&e2), "equal", "a vector of %d differs from its copy", n)
		for _, i := range []int{0, n / 2, n - 1} {
			m := cloneVec(ea)
			m[i].C = suite.Point().Add(m[i].C, pt(1))
			t.Check(!ea.Equal(&m) && !ea[i].Equal(&m[i]), "equal", "a vector of %d equals one with C of %d changed", n, i)
			m = cloneVec(ea)
			m[i].K = suite.Point().Add(m[i].K, pt(1))
			t.Check(!ea.Equal(&m) && !ea[i].Equal(&m[i]), "equal", "a vector of %d equals one with K of %d changed", n, i)
			da, db := make(libunlynx.DeterministCipherVector, n), make(libunlynx.DeterministCipherVector, n)
			for j := range ea {
				da[j].Point, db[j].Point = ea[j].C, m[j].C.Clone()
			}
			t.Check(da.Equal(&db) && da.Key() == db.Key(), "det-equal", "equal deterministic vectors of %d differ", n)
			db[i].Point = suite.Point().Add(db[i].Point, pt(1))
			t.Check(!da.Equal(&db) && da.Key() != db.Key() && !da[i].Equal(&db[i]), "det-equal", "deterministic vectors of %d with element %d changed are equal", n, i)
		}
		short := cloneVec(ea[:n-1])
		t.Check(!ea.Equal(&short) && !short.Equal(&ea), "equal", "a vector of %d equals its prefix", n)
	}
	{
		da := make(libunlynx.DeterministCipherVector, n)
		for j := range ea {
			da[j].Point = ea[j].C
		}
		long := append(append(libunlynx.DeterministCipherVector{}, da...), libunlynx.DeterministCipherText{Point: pt(1)})
		t.Check(!da.Equal(&long) && !long.Equal(&da), "det-equal", "a deterministic vector of %d equals its prefix", n+1)
		t.Check(!da.Equal(nil) && !ea.Equal(nil), "equal", "a vector of %d equals no vector", n)
		z, dz := libunlynx.NewCipherVector(n), libunlynx.NewDeterministicCipherVector(n)
		t.Check(len(*z) == n && len(*dz) == n, "new", "new vectors of %d have %d and %d elements", n, len(*z), len(*dz))
		for i := range *dz {
			t.Check(isEnc(sk, &(*z)[i], 0) && (*dz)[i].Point.Equal(suite.Point().Null()), "new", "element %d of new vectors of %d is not zero", i, n)
			(*dz)[i].Point.Add((*dz)[i].Point, pt(1)) // elements share nothing
		}
		for i := range *dz {
			t.Check((*dz)[i].Point.Equal(pt(1)), "new", "element %d of a new vector of %d is shared", i, n)
		}
	}
	intact("Equal(mutants)")
	if n == 0 {
		return
	}
	t.Sample("length %d: every operation on %v...", n, a[:minInt(3, n)])
}

// c02Program interprets a random program over a pool of vectors that share
// operands, and re-checks the whole pool at the end.
func c02Program(t *T, steps int) {
	sk, pk := newKey()
	n := []int{1, 2, 5, 99, 100, 101}[t.R.Intn(6)]
	type cell struct {
		v    libunlynx.CipherVector
		m    []int64
		snap string
	}
	var pool []*cell
	put := func(v libunlynx.CipherVector, m []int64) {
		pool = append(pool, &cell{v, m, vecBytes(v)})
	}
	for i := 0; i < 3; i++ {
		m := randInts(t.R, n, 50)
		put(t.encVec(pk, m), m)
	}
	trace := ""
	for s := 0; s < steps; s++ {
		x, y := pool[t.R.Intn(len(pool))], pool[t.R.Intn(len(pool))]
		var v libunlynx.CipherVector
		var m []int64
		op := t.R.Intn(5)
		switch op {
		case 0:
			v = *libunlynx.NewCipherVector(n)
			v.Add(x.v, y.v)
			m = mapInts(x.m, y.m, func(a, b int64) int64 { return a + b })
		case 1:
			v = *libunlynx.NewCipherVector(n)
			v.Sub(x.v, y.v)
			m = mapInts(x.m, y.m, func(a, b int64) int64 { return a - b })
		case 2:
			k := int64(t.R.Intn(9) - 4)
			v = *libunlynx.NewCipherVector(n)
			for i := range v {
				v[i].MulCipherTextbyScalar(x.v[i], suite.Scalar().SetInt64(k))
			}
			m = mapInts(x.m, x.m, func(a, b int64) int64 { return a * k })
		case 3:
			// the sum of a vector, broadcast
			ac := x.v.Acum()
			var sum int64
			for _, a := range x.m {
				sum += a
			}
			v = make(libunlynx.CipherVector, n)
			m = make([]int64, n)
			for i := range v {
				v[i], m[i] = ac, sum
			}
		case 4:
			f := libunlynx.NewFilteredResponse(0, n)
			f.Add(libunlynx.FilteredResponse{AggregatingAttributes: x.v}, libunlynx.FilteredResponse{AggregatingAttributes: y.v})
			v = f.AggregatingAttributes
			m = mapInts(x.m, y.m, func(a, b int64) int64 { return a + b })
		}
		trace += fmt.Sprint(op)
		big := false
		for _, a := range m {
			if a > 1<<50 || a < -(1<<50) {
				big = true
			}
		}
		if big {
			continue
		}
		put(v, m)
		if len(pool) > 12 {
			pool = pool[1:]
		}
		t.Nontrivial("program/%d/%s", n, trace)
	}
	for i, c := range pool {
		t.Check(vecBytes(c.v) == c.snap, "operand-changed:program", "a vector of the pool (%d of %d, length %d) changed after it was computed, program %s", i, len(pool), n, trace)
		checkVec(t, sk, c.v, c.m, "program", "result of program "+trace)
	}
	t.Sample("program %s over vectors of %d", trace, n)
}

func c02Split(t *T, rounds int) {
	for i := 0; i < rounds; i++ {
		for _, k := range []int{0, 1, 2, 5, 31} {
			s, _ := newKey()
			if i%5 == 1 {
				s = suite.Scalar().Zero()
			}
			snap := s.String()
			before := s.Clone()
			sh := libunlynx.SplitScalar(s, k)
			t.Check(s.String() == snap, "split-changes-secret", "SplitScalar into %d+1 shares changed the secret it was given", k)
			t.Check(len(sh) == k+1, "split-count", "SplitScalar(%d) gave %d shares", k, len(sh))
			sum := suite.Scalar().Zero()
			for _, x := range sh {
				sum.Add(sum, x)
			}
			t.Check(sum.Equal(before), "split-sum", "the %d shares do not sum to the secret", len(sh))
			// shares are the caller's own: changing one leaves the secret alone
			for _, x := range sh {
				x.Add(x, suite.Scalar().One())
			}
			t.Check(s.String() == snap, "split-aliases-secret", "a share of SplitScalar(%d) is the secret object itself", k)
			if k > 0 {
				again := libunlynx.SplitScalar(before, k)
				t.Check(!again[0].Equal(sh[0]), "split-fixed", "two splits share their first share")
			}
			t.Nontrivial("split/%d/%s", k, snap)
		}
		n := t.R.Intn(9)
		g, priv, pub := libunlynx.GenKeys(n)
		sum, ssum := suite.Point().Null(), suite.Scalar().Zero()
		ok := len(priv) == n && len(pub) == n
		for j := 0; ok && j < n; j++ {
			ok = suite.Point().Mul(priv[j], nil).Equal(pub[j])
			sum.Add(sum, pub[j])
			ssum.Add(ssum, priv[j])
		}
		t.Check(ok && sum.Equal(g) && suite.Point().Mul(ssum, nil).Equal(g), "genkeys", "GenKeys(%d): the group key is not the sum of the keys", n)
		ct := libunlynx.EncryptInt(g, int64(i))
		t.Check(isEnc(ssum, ct, int64(i)), "genkeys", "an encryption under the group key does not decrypt with the sum of the secrets")
		k := t.R.Intn(300)
		pi := libunlynx.RandomPermutation(k)
		seen := map[int]bool{}
		for _, x := range pi {
			if x >= 0 && x < k {
				seen[x] = true
			}
		}
		t.Check(len(pi) == k && len(seen) == k, "permutation", "RandomPermutation(%d) is not a permutation: %v", k, pi)
		t.Check(len(libunlynx.RandomScalarSlice(k)) == k, "scalars", "RandomScalarSlice(%d)", k)
		t.Nontrivial("genkeys/%d/%d", n, i)
	}
}

// c02Aggregate folds responses into groups with AddInMap and compares with
// integer sums; the first response of a group must not become the accumulator.
func c02Aggregate(t *T, rounds int) {
	sk, pk := newKey()
	for i := 0; i < rounds; i++ {
		na, ng := []int{0, 1, 2, 4, 100, 101}[t.R.Intn(6)], t.R.Intn(3)
		groups := 1 + t.R.Intn(4)
		if na >= 100 {
			groups = 2
		}
		nresp := 1 + t.R.Intn(9)
		want := map[libunlynx.GroupingKey][]int64{}
		grp := map[libunlynx.GroupingKey][]int64{}
		m := map[libunlynx.GroupingKey]libunlynx.FilteredResponse{}
		proofs := map[libunlynx.GroupingKey][]libunlynx.CipherVector{}
		perGroup := map[libunlynx.GroupingKey][][]int64{}
		var in []libunlynx.FilteredResponseDet
		var snaps []string
		for j := 0; j < nresp; j++ {
			g := t.R.Intn(groups)
			key := libunlynx.GroupingKey(fmt.Sprintf("g%d", g))
			vals := randInts(t.R, na, 100)
			gv := make([]int64, ng)
			for x := range gv {
				gv[x] = int64(g*10 + x)
			}
			fr := libunlynx.FilteredResponseDet{DetTagGroupBy: key, Fr: libunlynx.FilteredResponse{GroupByEnc: t.encVec(pk, gv), AggregatingAttributes: t.encVec(pk, vals)}}
			in = append(in, fr)
			snaps = append(snaps, vecBytes(fr.Fr.GroupByEnc)+vecBytes(fr.Fr.AggregatingAttributes))
			if want[key] == nil {
				want[key] = make([]int64, na)
			}
			want[key] = mapInts(want[key], vals, func(a, b int64) int64 { return a + b })
			grp[key] = gv
			perGroup[key] = append(perGroup[key], vals)
		}
		for j := range in {
			libunlynx.AddInMap(m, in[j].DetTagGroupBy, in[j].Fr)
			in[j].FormatAggregationProofs(proofs)
		}
		t.Check(len(m) == len(want), "aggregate-groups", "AddInMap made %d groups instead of %d", len(m), len(want))
		for k, w := range want {
			fr, ok := m[k]
			if !t.Check(ok, "aggregate-groups", "group %s is missing", k) {
				continue
			}
			checkVec(t, sk, fr.AggregatingAttributes, w, "aggregate", "AddInMap group "+string(k))
			checkVec(t, sk, fr.GroupByEnc, grp[k], "aggregate-group", "AddInMap group attributes "+string(k))
			if na > 0 {
				pv := proofs[k]
				if t.Check(len(pv) == na, "format-proofs", "FormatAggregationProofs: %d columns instead of %d", len(pv), na) {
					for c := range pv {
						var col []int64
						for _, v := range perGroup[k] {
							col = append(col, v[c])
						}
						checkVec(t, sk, pv[c], col, "format-proofs", "FormatAggregationProofs column")
					}
				}
			}
		}
		for j := range in {
			t.Check(vecBytes(in[j].Fr.GroupByEnc)+vecBytes(in[j].Fr.AggregatingAttributes) == snaps[j], "operand-changed:AddInMap", "AddInMap changed response %d of %d", j, nresp)
		}
		t.Nontrivial("aggregate/%d/%d/%d/%v", na, groups, nresp, want)
	}
}

// c02Concurrent runs the operations on shared operands from many goroutines.
func c02Concurrent(t *T, n int) {
	sk, pk := newKey()
	a, b := randInts(t.R, n, 1000), randInts(t.R, n, 1000)
	ea, eb := t.encVec(pk, a), t.encVec(pk, b)
	snap := vecBytes(ea) + vecBytes(eb)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			r := libunlynx.NewCipherVector(n)
			if g%2 == 0 {
				r.Add(ea, eb)
				checkVec(t, sk, *r, mapInts(a, b, func(x, y int64) int64 { return x + y }), "vector-add", "concurrent Add")
			} else {
				r.Sub(ea, eb)
				checkVec(t, sk, *r, mapInts(a, b, func(x, y int64) int64 { return x - y }), "vector-sub", "concurrent Sub")
			}
			acc := r.Acum()
			var sum int64
			for i := range a {
				if g%2 == 0 {
					sum += a[i] + b[i]
				} else {
					sum += a[i] - b[i]
				}
			}
			t.Check(isEnc(sk, &acc, sum), "acum", "concurrent Acum")
			t.Nontrivial("concurrent/%d/%d", n, g)
		}(g)
	}
	wg.Wait()
	t.Check(vecBytes(ea)+vecBytes(eb) == snap, "operand-changed:concurrent", "concurrent operations changed an operand")
}

func c02Cases(tier string, seed int64) []Case {
	var out []Case
	reps, progs := 1, 12
	if tier == "thorough" {
		reps, progs = 8, 120
	}
	for r := 0; r < reps; r++ {
		for _, n := range lens {
			n := n
			out = append(out, Case{Name: fmt.Sprintf("ops-%d-%d", n, r), Cost: 0.05 + float64(n)/60, Run: func(t *T) { c02Ops(t, n) }})
		}
		for i := 0; i < 4; i++ {
			out = append(out, Case{Name: fmt.Sprintf("split-%d-%d", i, r), Cost: 1, Run: func(t *T) { c02Split(t, 20) }})
			out = append(out, Case{Name: fmt.Sprintf("aggregate-%d-%d", i, r), Cost: 1, Run: func(t *T) { c02Aggregate(t, 15) }})
		}
		for _, n := range []int{1, 100, 101, 230} {
			n := n
			out = append(out, Case{Name: fmt.Sprintf("concurrent-%d-%d", n, r), Cost: float64(n) / 50, Run: func(t *T) { c02Concurrent(t, n) }})
		}
	}
	for i := 0; i < progs; i++ {
		out = append(out, Case{Name: fmt.Sprintf("program-%d", i), Cost: 1, Run: func(t *T) { c02Program(t, 25) }})
	}
	return out
}
