package main

// The flattened forms in which the protocols handle responses.

import (
	"fmt"

	libunlynx "github.com/ldsec/unlynx/lib"
	protocolsunlynx "github.com/ldsec/unlynx/protocols"
	servicesunlynx "github.com/ldsec/unlynx/services"
	"go.dedis.ch/kyber/v3"
)

func c03Forms(t *T, n int) {
	g := newGen(t)
	same := func(a, b libunlynx.CipherVector) bool { return len(a) == len(b) && vecBytes(a) == vecBytes(b) }
	for i := 0; i < n; i++ {
		m := []int{0, 1, 1, 2, 3, 7, 30}[t.R.Intn(7)]
		if i == 0 {
			m = 130
		}
		var prs []libunlynx.ProcessResponse
		var frs []libunlynx.FilteredResponse
		uniform := t.R.Intn(2) == 0
		a, b, c := g.small(), g.small(), g.small()
		for j := 0; j < m; j++ {
			if !uniform {
				a, b, c = g.small(), g.small(), g.small()
			}
			prs = append(prs, libunlynx.ProcessResponse{GroupByEnc: g.vec(a), WhereEnc: g.vec(b), AggregatingAttributes: g.vec(c)})
			frs = append(frs, libunlynx.FilteredResponse{GroupByEnc: g.vec(a), AggregatingAttributes: g.vec(c)})
		}
		digest := func() string {
			s := ""
			for j := range prs {
				s += vecBytes(prs[j].GroupByEnc) + "/" + vecBytes(prs[j].WhereEnc) + "/" + vecBytes(prs[j].AggregatingAttributes) + "/" + vecBytes(frs[j].GroupByEnc) + "/" + vecBytes(frs[j].AggregatingAttributes) + "|"
			}
			return s
		}
		before := digest()
		shape := fmt.Sprintf("%d/%v/%d,%d,%d", m, uniform, a, b, c)

		t.guard("key-switch form", shape, func() error {
			cv, lengths := protocolsunlynx.FilteredResponseToCipherVector(frs)
			back := protocolsunlynx.CipherVectorToFilteredResponse(cv, lengths)
			if !t.Check(len(back) == m, "key-switch-form", "%d responses come back as %d", m, len(back)) {
				return nil
			}
			for j := range back {
				t.Check(same(back[j].GroupByEnc, frs[j].GroupByEnc) && same(back[j].AggregatingAttributes, frs[j].AggregatingAttributes), "key-switch-form", "response %d of shape %s differs", j, shape)
			}
			return nil
		})

		t.guard("shuffle form", shape, func() error {
			cv, lengths := protocolsunlynx.ProcessResponseToMatrixCipherText(prs)
			back := protocolsunlynx.MatrixCipherTextToProcessResponse(cv, lengths)
			want := m
			if m == 1 { // a second row of zeros is added
				want = 2
			}
			if !t.Check(len(back) == want && len(cv) == want, "shuffle-form", "%d responses give %d rows and come back as %d", m, len(cv), len(back)) {
				return nil
			}
			for j := range prs {
				t.Check(same(back[j].GroupByEnc, prs[j].GroupByEnc) && same(back[j].WhereEnc, prs[j].WhereEnc) && same(back[j].AggregatingAttributes, prs[j].AggregatingAttributes), "shuffle-form", "response %d of shape %s differs", j, shape)
			}
			if m == 1 {
				t.Check(same(back[1].GroupByEnc, prs[0].GroupByEnc) && same(back[1].WhereEnc, prs[0].WhereEnc), "shuffle-form", "the added row has another group or other where attributes")
				t.Check(len(back[1].AggregatingAttributes) == len(prs[0].AggregatingAttributes), "shuffle-form", "the added row has another width")
				sk, _ := newKey()
				for k := range back[1].AggregatingAttributes {
					t.Check(isEnc(sk, &back[1].AggregatingAttributes[k], 0), "shuffle-form", "the added row holds something else than zeros")
				}
			}
			return nil
		})

		t.guard("tag form", shape, func() error {
			cv := protocolsunlynx.ProcessResponseToCipherVector(prs)
			total := 0
			for j := range prs {
				total += len(prs[j].GroupByEnc) + len(prs[j].WhereEnc)
			}
			if !t.Check(len(cv) == total, "tag-form", "%d attributes give %d", total, len(cv)) {
				return nil
			}
			// every ciphertext gets a tag from a small pool, the same for the same ciphertext
			pool := []kyber.Point{pt(int64(1 + t.R.Intn(50))), pt(int64(60 + t.R.Intn(50))), pt(int64(200 + t.R.Intn(50)))}
			number := map[string]int{}
			tags := make(libunlynx.DeterministCipherVector, len(cv))
			for k := range cv {
				b := ctBytes(&cv[k])
				if _, ok := number[b]; !ok {
					number[b] = t.R.Intn(len(pool))
				}
				tags[k] = libunlynx.DeterministCipherText{Point: pool[number[b]]}
			}
			det := protocolsunlynx.DeterCipherVectorToProcessResponseDet(tags, prs)
			if !t.Check(len(det) == m, "tag-form", "%d responses come back as %d", m, len(det)) {
				return nil
			}
			whereOf, groupOf := map[int]libunlynx.GroupingKey{}, map[string]libunlynx.GroupingKey{}
			backW, backG := map[libunlynx.GroupingKey]int{}, map[libunlynx.GroupingKey]string{}
			for j := range det {
				t.Check(same(det[j].PR.GroupByEnc, prs[j].GroupByEnc) && same(det[j].PR.WhereEnc, prs[j].WhereEnc) && same(det[j].PR.AggregatingAttributes, prs[j].AggregatingAttributes), "tag-form", "response %d of shape %s differs", j, shape)
				if !t.Check(len(det[j].DetTagWhere) == len(prs[j].WhereEnc), "tag-form", "%d where attributes have %d tags", len(prs[j].WhereEnc), len(det[j].DetTagWhere)) {
					continue
				}
				for k, w := range det[j].DetTagWhere {
					id := number[ctBytes(&prs[j].WhereEnc[k])]
					if o, ok := whereOf[id]; ok {
						t.Check(o == w, "tag-form", "equal tags become different (response %d, where attribute %d)", j, k)
					}
					if o, ok := backW[w]; ok {
						t.Check(o == id, "tag-form", "different tags become equal (response %d, where attribute %d)", j, k)
					}
					whereOf[id], backW[w] = w, id
				}
				grp := ""
				for k := range prs[j].GroupByEnc {
					grp += fmt.Sprint(number[ctBytes(&prs[j].GroupByEnc[k])], " ")
				}
				w := det[j].DetTagGroupBy
				if o, ok := groupOf[grp]; ok {
					t.Check(o == w, "tag-form", "equal groups become different (response %d)", j)
				}
				if o, ok := backG[w]; ok {
					t.Check(o == grp, "tag-form", "different groups become equal (response %d)", j)
				}
				groupOf[grp], backG[w] = w, grp
			}
			return nil
		})

		t.guard("column form", fmt.Sprint(m), func() error {
			v := g.vec(m)
			cols := protocolsunlynx.AdaptCipherTextArray(v)
			ok := len(cols) == m
			for j := range cols {
				ok = ok && len(cols[j]) == 1 && ctBytes(&cols[j][0]) == ctBytes(&v[j])
			}
			t.Check(ok, "column-form", "%d ciphertexts differ as rows", m)
			return nil
		})

		t.Check(digest() == before, "forms:input-changed", "making the forms of %s changes the responses", shape)
	}
}

// c15Filter compares the local filter with an evaluation of the predicate.
func c15Filter(t *T, n int) {
	_, pub := newKey()
	pool := make(libunlynx.CipherVector, 6)
	for i := range pool {
		pool[i] = *libunlynx.EncryptInt(pub, int64(i))
	}
	for i := 0; i < n; i++ {
		nw := 1 + t.R.Intn(4)
		if i%10 == 9 {
			nw = 5 + t.R.Intn(8)
		}
		rows := []int{0, 1, 2, 5, 20, 105}[t.R.Intn(6)]
		domain := 1 + t.R.Intn(3)
		tag := func(v int64) libunlynx.GroupingKey { return libunlynx.GroupingKey(pt(1000 + v).String()) }
		vals := make([]int64, 2*nw)
		where := make([]libunlynx.WhereQueryAttributeTagged, nw)
		for k := range where {
			vals[2*k] = int64(t.R.Intn(domain))
			where[k] = libunlynx.WhereQueryAttributeTagged{Name: fmt.Sprint("w", t.R.Intn(99)), Value: tag(vals[2*k])}
		}
		pred := randPred(t.R, nw, t.R.Intn(4), i%3 == 0)
		var in []libunlynx.ProcessResponseDet
		all, kept := map[string]int{}, map[string]int{}
		nkept := 0
		digest := func(key libunlynx.GroupingKey, grp, agg libunlynx.CipherVector) string {
			return string(key) + "/" + vecBytes(grp) + "/" + vecBytes(agg)
		}
		for j := 0; j < rows; j++ {
			d := libunlynx.ProcessResponseDet{DetTagGroupBy: tag(int64(100 + t.R.Intn(3)))}
			d.PR.GroupByEnc = libunlynx.CipherVector{pool[t.R.Intn(6)]}
			d.PR.AggregatingAttributes = libunlynx.CipherVector{pool[t.R.Intn(6)], pool[t.R.Intn(6)]}
			for k := 0; k < nw; k++ {
				vals[2*k+1] = int64(t.R.Intn(domain))
				d.DetTagWhere = append(d.DetTagWhere, tag(vals[2*k+1]))
				d.PR.WhereEnc = append(d.PR.WhereEnc, pool[t.R.Intn(6)])
			}
			in = append(in, d)
			k := digest(d.DetTagGroupBy, d.PR.GroupByEnc, d.PR.AggregatingAttributes)
			all[k]++
			if pred.eval(vals) {
				kept[k]++
				nkept++
			}
		}
		judge := func(name string, want map[string]int, f func() []libunlynx.FilteredResponseDet) {
			var res []libunlynx.FilteredResponseDet
			if pn := noPanic(func() { res = f() }); !t.Check(pn == "", name+":panic", "%d rows, %d where attributes, %s: %s", rows, nw, pred, pn) {
				return
			}
			got := map[string]int{}
			for _, r := range res {
				got[digest(r.DetTagGroupBy, r.Fr.GroupByEnc, r.Fr.AggregatingAttributes)]++
			}
			ok := len(got) == len(want)
			for k, v := range want {
				ok = ok && got[k] == v
			}
			t.Check(ok, name, "%s of %d rows with %d where attributes (%s) keeps the wrong rows: %d", name, rows, nw, pred, len(res))
		}
		judge("filter", kept, func() []libunlynx.FilteredResponseDet {
			return servicesunlynx.FilterResponses(pred.String(), where, in)
		})
		judge("no filter", all, func() []libunlynx.FilteredResponseDet { return servicesunlynx.FilterNone(in) })
		t.Count("filtered rows", int64(rows))
		t.Count("kept rows", int64(nkept))
		if rows > 0 {
			t.Nontrivial("filter/%d/%d/%d/%s", rows, nw, nkept, pred)
		} else {
			t.Trivial()
		}
	}
}
