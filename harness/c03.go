package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxaggr "github.com/ldsec/unlynx/lib/aggregation"
	libunlynxkeyswitch "github.com/ldsec/unlynx/lib/key_switch"
	libunlynxshuffle "github.com/ldsec/unlynx/lib/shuffle"
	libunlynxtools "github.com/ldsec/unlynx/lib/tools"
	protocolsunlynx "github.com/ldsec/unlynx/protocols"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3/network"
)

func init() {
	register(&Check{
		ID:          "C03",
		Rule:        "a case encodes generated objects of one kind (ciphertexts, vectors, ragged and empty collections, responses, tagged responses, grouping keys, number lists, proofs, protocol messages, gob tables) with the system's encoder, decodes the bytes (after a trip through the network marshaller where the object is a message) and compares every component with a snapshot; the flattened forms of the protocols (to switch, to shuffle, to tag) are made and undone alike; an evaluation is one round trip, non-trivial when the object has a component (distinct by kind and shape)",
		Assumptions: []string{"a nil and an empty list are the same value", "a deterministic tag is never the empty string and never contains the separator"},
		Cases:       c03Cases,
	})
}

type gen struct {
	t    *T
	pts  []kyber.Point
	next int
}

func newGen(t *T) *gen {
	g := &gen{t: t}
	for i := 0; i < 120; i++ {
		_, p := newKey()
		g.pts = append(g.pts, p)
	}
	for i := int64(-3); i <= 3; i++ {
		g.pts = append(g.pts, pt(i))
	}
	return g
}

func (g *gen) point() kyber.Point { return g.pts[g.t.R.Intn(len(g.pts))] }
func (g *gen) ct() libunlynx.CipherText {
	return libunlynx.CipherText{K: g.point(), C: g.point()}
}
func (g *gen) vec(n int) libunlynx.CipherVector {
	v := make(libunlynx.CipherVector, n)
	for i := range v {
		v[i] = g.ct()
	}
	return v
}
func (g *gen) small() int {
	if g.t.R.Intn(60) == 0 {
		return 254 + g.t.R.Intn(5)
	}
	return []int{0, 0, 1, 1, 2, 3, 5, 9}[g.t.R.Intn(8)]
}
func (g *gen) mat() []libunlynx.CipherVector {
	rows := []int{0, 1, 2, 3, 7, 30}[g.t.R.Intn(6)]
	if g.t.R.Intn(20) == 0 {
		rows = 254 + g.t.R.Intn(5)
	}
	m := make([]libunlynx.CipherVector, rows)
	same := g.t.R.Intn(2) == 0
	w := g.small()
	for i := range m {
		if !same {
			w = g.small()
			if g.t.R.Intn(12) == 0 {
				w = 99 + g.t.R.Intn(4)
			}
		}
		m[i] = g.vec(w)
	}
	return m
}
func matShape(m []libunlynx.CipherVector) string {
	var s []string
	for _, v := range m {
		s = append(s, fmt.Sprint(len(v)))
	}
	return strings.Join(s, ",")
}

// matBytes renders a matrix with its shape.
func matBytes(m []libunlynx.CipherVector) string {
	var s strings.Builder
	s.WriteString(matShape(m) + "|")
	for _, v := range m {
		s.WriteString(vecBytes(v))
	}
	return s.String()
}
func (g *gen) tag() libunlynx.GroupingKey {
	n := g.t.R.Intn(3) + 1
	dv := make(libunlynx.DeterministCipherVector, n)
	for i := range dv {
		dv[i].Point = g.point()
	}
	return dv.Key()
}

func protoTrip(in, out interface{}) {
	b, err := network.Marshal(in)
	must(err)
	_, m, err := network.Unmarshal(b, suite)
	must(err)
	switch o := out.(type) {
	case *protocolsunlynx.ShufflingBytesMessage:
		*o = *m.(*protocolsunlynx.ShufflingBytesMessage)
	case *libunlynx.DpResponseToSend:
		*o = *m.(*libunlynx.DpResponseToSend)
	case *libunlynxkeyswitch.PublishedKSListProofBytes:
		*o = *m.(*libunlynxkeyswitch.PublishedKSListProofBytes)
	case *libunlynxaggr.PublishedAggregationListProofBytes:
		*o = *m.(*libunlynxaggr.PublishedAggregationListProofBytes)
	case *libunlynxshuffle.PublishedShufflingProofBytes:
		*o = *m.(*libunlynxshuffle.PublishedShufflingProofBytes)
	default:
		panic("protoTrip")
	}
}

func init() {
	network.RegisterMessages(&libunlynx.DpResponseToSend{}, &libunlynxkeyswitch.PublishedKSListProofBytes{}, &libunlynxaggr.PublishedAggregationListProofBytes{}, &libunlynxshuffle.PublishedShufflingProofBytes{})
}

// guard turns a panic or an error of a round trip into a violation.
func (t *T) guard(kind, shape string, f func() error) {
	var err error
	if p := noPanic(func() { err = f() }); p != "" {
		t.Fail(kind+":panic", "%s of shape %s: %s", kind, shape, p)
	} else if err != nil {
		t.Fail(kind+":error", "%s of shape %s: %v", kind, shape, err)
	}
	if shape == "" || shape == "0" {
		t.Trivial()
	} else {
		t.Nontrivial("%s/%s", kind, shape)
	}
}

func c03Cipher(t *T, n int) {
	g := newGen(t)
	for i := 0; i < n; i++ {
		c := g.ct()
		t.guard("CipherText", fmt.Sprint("x", i), func() error {
			b, err := c.ToBytes()
			if err != nil {
				return err
			}
			d := libunlynx.CipherText{}
			if err := d.FromBytes(append([]byte{}, b...)); err != nil {
				return err
			}
			t.Check(ctBytes(&c) == ctBytes(&d) && c.Equal(&d), "CipherText", "binary round trip differs")
			t.Check(len(b) == libunlynx.CipherTextByteSize(), "CipherText:size", "encoded in %d bytes", len(b))
			s, err := c.Serialize()
			if err != nil {
				return err
			}
			e := libunlynx.NewCipherText()
			if err := e.Deserialize(s); err != nil {
				return err
			}
			t.Check(ctBytes(&c) == ctBytes(e), "CipherText:base64", "base64 round trip differs")
			f, err := libunlynx.NewCipherTextFromBase64(s)
			if err != nil {
				return err
			}
			t.Check(ctBytes(&c) == ctBytes(f), "CipherText:base64", "base64 round trip differs")
			ps1, err := libunlynx.SerializePoint(c.K)
			if err != nil {
				return err
			}
			p, err := libunlynx.DeserializePoint(ps1)
			if err != nil {
				return err
			}
			t.Check(p.Equal(c.K), "Point:base64", "base64 round trip differs")
			sc, _ := newKey()
			s, err = libunlynx.SerializeScalar(sc)
			if err != nil {
				return err
			}
			sd, err := libunlynx.DeserializeScalar(s)
			if err != nil {
				return err
			}
			t.Check(sd.Equal(sc), "Scalar:base64", "base64 round trip differs")
			return nil
		})
	}
	for _, l := range lens {
		v := g.vec(l)
		t.guard("CipherVector", fmt.Sprint(l), func() error {
			snap := vecBytes(v)
			b, k, err := v.ToBytes()
			if err != nil {
				return err
			}
			t.Check(k == l, "CipherVector:length", "length %d reported as %d", l, k)
			b = append([]byte{}, b...)
			for _, w := range []libunlynx.CipherVector{nil, g.vec(3), make(libunlynx.CipherVector, l)} {
				if err := w.FromBytes(b, k); err != nil {
					return err
				}
				t.Check(len(w) == l && vecBytes(w) == snap && w.Equal(&v), "CipherVector", "round trip of %d elements differs", l)
			}
			t.Check(vecBytes(v) == snap, "CipherVector:changed", "encoding changed the vector")
			pts := make([]kyber.Point, l)
			for i := range pts {
				pts[i] = v[i].K
			}
			pb, err := libunlynx.AbstractPointsToBytes(pts)
			if err != nil {
				return err
			}
			q, err := libunlynx.FromBytesToAbstractPoints(pb)
			if err != nil {
				return err
			}
			ok := len(q) == l
			for i := 0; ok && i < l; i++ {
				ok = q[i].Equal(pts[i])
			}
			t.Check(ok, "Points", "round trip of %d points differs", l)
			return nil
		})
		for _, enc := range []string{"det"} {
			t.guard("DeterministicTaggingMessage", fmt.Sprint(enc, l), func() error {
				m := protocolsunlynx.DeterministicTaggingMessage{Data: v}
				b, err := m.ToBytes()
				if err != nil {
					return err
				}
				d := protocolsunlynx.DeterministicTaggingMessage{}
				if err := d.FromBytes(b); err != nil {
					return err
				}
				t.Check(len(d.Data) == l && vecBytes(d.Data) == vecBytes(v), "DeterministicTaggingMessage", "round trip of %d elements differs", l)
				return nil
			})
		}
	}
}

func c03Mats(t *T, n int) {
	g := newGen(t)
	for i := 0; i < n; i++ {
		m := g.mat()
		if i == 0 {
			m = []libunlynx.CipherVector{g.vec(2), g.vec(0), g.vec(101), {}, g.vec(1)}
		}
		snap, shape := matBytes(m), matShape(m)
		t.guard("CipherVectors", shape, func() error {
			b, l, err := libunlynx.ArrayCipherVectorToBytes(m)
			if err != nil {
				return err
			}
			d, err := libunlynx.FromBytesToArrayCipherVector(b, l)
			if err != nil {
				return err
			}
			t.Check(matBytes(d) == snap, "CipherVectors", "round trip of shape %s gives shape %s or other content", shape, matShape(d))
			t.Check(matBytes(m) == snap, "CipherVectors:changed", "encoding changed the vectors")
			return nil
		})
		t.guard("ShufflingMessage", shape, func() error {
			sm := protocolsunlynx.ShufflingMessage{Data: m}
			b, l, err := sm.ToBytes()
			if err != nil {
				return err
			}
			bm := protocolsunlynx.ShufflingBytesMessage{Data: b}
			protoTrip(&bm, &bm)
			d := protocolsunlynx.ShufflingMessage{}
			if err := d.FromBytes(bm.Data, l); err != nil {
				return err
			}
			t.Check(matBytes(d.Data) == snap, "ShufflingMessage", "round trip of shape %s differs", shape)
			return nil
		})
		t.guard("ShufflingPlusDDTMessage", shape, func() error {
			sm := protocolsunlynx.ShufflingPlusDDTMessage{Data: m, ShuffKey: g.point()}
			b, l, err := sm.ToBytes()
			if err != nil {
				return err
			}
			kb, err := libunlynx.AbstractPointsToBytes([]kyber.Point{sm.ShuffKey})
			if err != nil {
				return err
			}
			d := protocolsunlynx.ShufflingPlusDDTMessage{}
			if err := d.FromBytes(b, kb, l); err != nil {
				return err
			}
			t.Check(matBytes(d.Data) == snap && d.ShuffKey.Equal(sm.ShuffKey), "ShufflingPlusDDTMessage", "round trip of shape %s differs", shape)
			return nil
		})
		// precomputed shuffle tables
		tab := make([]libunlynxshuffle.CipherVectorScalar, len(m))
		for j := range tab {
			tab[j].CipherV = m[j]
			for range m[j] {
				s, _ := newKey()
				tab[j].S = append(tab[j].S, s)
			}
		}
		t.guard("CipherVectorScalar", shape, func() error {
			e, err := libunlynxshuffle.EncodeCipherVectorScalar(tab)
			if err != nil {
				return err
			}
			f := filepath.Join(t.Dir, "tab.gob")
			defer os.Remove(f)
			if err := libunlynxtools.WriteToGobFile(f, e); err != nil {
				return err
			}
			var r []libunlynxshuffle.CipherVectorScalarBytes
			if err := libunlynxtools.ReadFromGobFile(f, &r); err != nil {
				return err
			}
			d, err := libunlynxshuffle.DecodeCipherVectorScalar(r)
			if err != nil {
				return err
			}
			ok := len(d) == len(tab)
			for j := 0; ok && j < len(d); j++ {
				ok = len(d[j].CipherV) == len(m[j]) && vecBytes(d[j].CipherV) == vecBytes(m[j]) && len(d[j].S) == len(tab[j].S)
				for k := 0; ok && k < len(d[j].S); k++ {
					ok = d[j].S[k].Equal(tab[j].S[k])
				}
			}
			t.Check(ok, "CipherVectorScalar", "gob round trip of shape %s differs", shape)
			return nil
		})
		t.guard("ShufflingProof", shape, func() error {
			hp := make([]byte, t.R.Intn(400))
			t.R.Read(hp)
			m2 := g.mat()
			p := libunlynxshuffle.PublishedShufflingProof{OriginalList: m, ShuffledList: m2, G: g.point(), H: g.point(), HashProof: hp}
			b, err := p.ToBytes()
			if err != nil {
				return err
			}
			if len(m) > 0 && len(m2) > 0 {
				// an empty byte string is not kept apart from an absent one by the wire format
				protoTrip(&b, &b)
			}
			d := libunlynxshuffle.PublishedShufflingProof{}
			if b.OriginalList == nil || b.ShuffledList == nil || b.OriginalListLength == nil || b.ShuffledListLength == nil {
				return nil
			}
			if err := d.FromBytes(b); err != nil {
				return err
			}
			t.Check(matBytes(d.OriginalList) == snap && matBytes(d.ShuffledList) == matBytes(m2) && d.G.Equal(p.G) && d.H.Equal(p.H) && bytes.Equal(d.HashProof, hp), "ShufflingProof", "round trip of shape %s differs", shape)
			return nil
		})
		t.guard("AggregationProofs", shape, func() error {
			p := libunlynxaggr.PublishedAggregationListProof{}
			for j := range m {
				p.List = append(p.List, libunlynxaggr.PublishedAggregationProof{Data: m[j], AggregationResult: g.ct()})
			}
			b, err := p.ToBytes()
			if err != nil {
				return err
			}
			protoTrip(&b, &b)
			d := libunlynxaggr.PublishedAggregationListProof{}
			if err := d.FromBytes(b); err != nil {
				return err
			}
			ok := len(d.List) == len(p.List)
			for j := 0; ok && j < len(d.List); j++ {
				ok = len(d.List[j].Data) == len(m[j]) && vecBytes(d.List[j].Data) == vecBytes(m[j]) && ctBytes(&d.List[j].AggregationResult) == ctBytes(&p.List[j].AggregationResult)
			}
			t.Check(ok, "AggregationProofs", "round trip of shape %s differs", shape)
			if len(m) > 0 {
				sb, err := p.List[0].ToBytes()
				if err != nil {
					return err
				}
				sd := libunlynxaggr.PublishedAggregationProof{}
				if err := sd.FromBytes(sb); err != nil {
					return err
				}
				t.Check(vecBytes(sd.Data) == vecBytes(m[0]), "AggregationProofs", "round trip of one proof differs")
			}
			return nil
		})
		t.guard("KeySwitchProofs", fmt.Sprint(len(m)), func() error {
			p := libunlynxkeyswitch.PublishedKSListProof{}
			for range m {
				pr := make([]byte, t.R.Intn(200))
				t.R.Read(pr)
				p.List = append(p.List, libunlynxkeyswitch.PublishedKSProof{Proof: pr, K: g.point(), ViB: g.point(), Ks2: g.point(), RbNeg: g.point(), Q: g.point()})
			}
			b, err := p.ToBytes()
			if err != nil {
				return err
			}
			protoTrip(&b, &b)
			d := libunlynxkeyswitch.PublishedKSListProof{}
			if err := d.FromBytes(b); err != nil {
				return err
			}
			ok := len(d.List) == len(p.List)
			for j := 0; ok && j < len(d.List); j++ {
				x, y := d.List[j], p.List[j]
				ok = bytes.Equal(x.Proof, y.Proof) && x.K.Equal(y.K) && x.ViB.Equal(y.ViB) && x.Ks2.Equal(y.Ks2) && x.RbNeg.Equal(y.RbNeg) && x.Q.Equal(y.Q)
			}
			t.Check(ok, "KeySwitchProofs", "round trip of %d proofs differs", len(m))
			return nil
		})
	}
	t.Sample("%d matrices of ragged shapes through every list encoding", n)
}

func c03Responses(t *T, n int) {
	g := newGen(t)
	for i := 0; i < n; i++ {
		a, b, c := g.small(), g.small(), g.small()
		if i%9 == 3 {
			a, b = 100, 101
		}
		fr := libunlynx.FilteredResponse{GroupByEnc: g.vec(a), AggregatingAttributes: g.vec(b)}
		pr := libunlynx.ProcessResponse{WhereEnc: g.vec(c), GroupByEnc: g.vec(a), AggregatingAttributes: g.vec(b)}
		if a == 0 && i%2 == 0 {
			fr.GroupByEnc = nil
			pr.GroupByEnc = nil
		}
		if c == 0 && i%2 == 0 {
			pr.WhereEnc = nil
		}
		eqF := func(x, y libunlynx.FilteredResponse) bool {
			return len(x.GroupByEnc) == len(y.GroupByEnc) && len(x.AggregatingAttributes) == len(y.AggregatingAttributes) && vecBytes(x.GroupByEnc) == vecBytes(y.GroupByEnc) && vecBytes(x.AggregatingAttributes) == vecBytes(y.AggregatingAttributes)
		}
		eqP := func(x, y libunlynx.ProcessResponse) bool {
			return len(x.WhereEnc) == len(y.WhereEnc) && vecBytes(x.WhereEnc) == vecBytes(y.WhereEnc) && eqF(libunlynx.FilteredResponse{GroupByEnc: x.GroupByEnc, AggregatingAttributes: x.AggregatingAttributes}, libunlynx.FilteredResponse{GroupByEnc: y.GroupByEnc, AggregatingAttributes: y.AggregatingAttributes})
		}
		shape := fmt.Sprintf("%d,%d,%d", a, b, c)
		t.guard("FilteredResponse", shape, func() error {
			by, gl, al, err := fr.ToBytes()
			if err != nil {
				return err
			}
			d := libunlynx.FilteredResponse{}
			if err := d.FromBytes(by, al, gl); err != nil {
				return err
			}
			t.Check(eqF(d, fr), "FilteredResponse", "round trip of shape %s differs", shape)
			return nil
		})
		tag := libunlynx.GroupingKey("")
		if t.R.Intn(4) > 0 {
			tag = g.tag()
		}
		t.guard("FilteredResponseDet", fmt.Sprintf("%s,%d", shape, len(tag)), func() error {
			x := libunlynx.FilteredResponseDet{DetTagGroupBy: tag, Fr: fr}
			by, gl, al, dl, err := x.ToBytes()
			if err != nil {
				return err
			}
			d := libunlynx.FilteredResponseDet{}
			if err := d.FromBytes(by, gl, al, dl); err != nil {
				return err
			}
			t.Check(eqF(d.Fr, fr) && d.DetTagGroupBy == tag, "FilteredResponseDet", "round trip of shape %s, tag of %d bytes differs", shape, len(tag))
			return nil
		})
		t.guard("ProcessResponse", shape, func() error {
			by, gl, al, wl, err := pr.ToBytes()
			if err != nil {
				return err
			}
			d := libunlynx.ProcessResponse{}
			if err := d.FromBytes(by, gl, al, wl); err != nil {
				return err
			}
			t.Check(eqP(d, pr), "ProcessResponse", "round trip of shape %s differs", shape)
			return nil
		})
		var wt []libunlynx.GroupingKey
		for j := 0; j < c; j++ {
			wt = append(wt, g.tag())
		}
		t.guard("ProcessResponseDet", fmt.Sprintf("%s,%d,%d", shape, len(tag), len(wt)), func() error {
			x := libunlynx.ProcessResponseDet{PR: pr, DetTagGroupBy: tag, DetTagWhere: wt}
			by, gl, al, wl, dg, dw, err := x.ToBytes()
			if err != nil {
				return err
			}
			d := libunlynx.ProcessResponseDet{}
			// exactly the encoded bytes, and the same bytes inside a larger buffer
			if err := d.FromBytes(append(make([]byte, 0, len(by)), by...), gl, al, wl, dg, dw); err != nil {
				return err
			}
			check := func(d libunlynx.ProcessResponseDet) {
				ok := eqP(d.PR, pr) && d.DetTagGroupBy == tag && len(d.DetTagWhere) == len(wt)
				for j := 0; ok && j < len(wt); j++ {
					ok = d.DetTagWhere[j] == wt[j]
				}
				t.Check(ok, "ProcessResponseDet", "round trip of shape %s, %d where tags, group tag of %d bytes differs (%d where tags)", shape, len(wt), len(tag), len(d.DetTagWhere))
			}
			check(d)
			d = libunlynx.ProcessResponseDet{}
			if err := d.FromBytes(append(append([]byte{}, by...), make([]byte, 500)...), gl, al, wl, dg, dw); err != nil {
				return err
			}
			check(d)
			return nil
		})
		// the message of a group of tagged responses, one shape in the message
		k := []int{0, 1, 2, 5, 40}[t.R.Intn(5)]
		if a+b < 5 && t.R.Intn(12) == 0 {
			k = 254 + t.R.Intn(60)
		}
		t.guard("ChildAggregatedDataMessage", fmt.Sprintf("%d*%s", k, shape), func() error {
			m := protocolsunlynx.ChildAggregatedDataMessage{}
			tl := t.R.Intn(3)
			for j := 0; j < k; j++ {
				tg := libunlynx.GroupingKey("")
				if tl > 0 {
					tg = libunlynx.GroupingKey(strings.Repeat(fmt.Sprintf("%x", j%16), tl*64))
				}
				m.ChildData = append(m.ChildData, libunlynx.FilteredResponseDet{DetTagGroupBy: tg, Fr: libunlynx.FilteredResponse{GroupByEnc: g.vec(a), AggregatingAttributes: g.vec(b)}})
			}
			by, gl, al, dl, err := m.ToBytes()
			if err != nil {
				return err
			}
			d := protocolsunlynx.ChildAggregatedDataMessage{}
			if err := d.FromBytes(by, gl, al, dl); err != nil {
				return err
			}
			if a+b+tl == 0 {
				return nil // nothing but empty members: an empty encoding
			}
			ok := len(d.ChildData) == k
			for j := 0; ok && j < k; j++ {
				ok = d.ChildData[j].DetTagGroupBy == m.ChildData[j].DetTagGroupBy && eqF(d.ChildData[j].Fr, m.ChildData[j].Fr)
			}
			t.Check(ok, "ChildAggregatedDataMessage", "round trip of %d members of shape %s, tags of %d differs", k, shape, tl*64)
			return nil
		})
		// members of different shapes: kept, or refused; never garbled
		t.guard("ChildAggregatedDataMessage(ragged)", shape, func() error {
			m := protocolsunlynx.ChildAggregatedDataMessage{}
			for j := 0; j < 2+t.R.Intn(3); j++ {
				m.ChildData = append(m.ChildData, libunlynx.FilteredResponseDet{DetTagGroupBy: g.tag(), Fr: libunlynx.FilteredResponse{GroupByEnc: g.vec(t.R.Intn(3)), AggregatingAttributes: g.vec(t.R.Intn(3))}})
			}
			by, gl, al, dl, err := m.ToBytes()
			if err != nil {
				t.Count("refused_encodings", 1)
				return nil
			}
			d := protocolsunlynx.ChildAggregatedDataMessage{}
			if err := d.FromBytes(by, gl, al, dl); err != nil {
				t.Count("refused_encodings", 1)
				return nil
			}
			ok := len(d.ChildData) == len(m.ChildData)
			for j := 0; ok && j < len(d.ChildData); j++ {
				ok = d.ChildData[j].DetTagGroupBy == m.ChildData[j].DetTagGroupBy && eqF(d.ChildData[j].Fr, m.ChildData[j].Fr)
			}
			t.Check(ok, "ChildAggregatedDataMessage:ragged", "members of different shapes are decoded into something else")
			return nil
		})
	}
	t.Sample("%d responses of random shapes through every response encoding", n)
}

func c03Clients(t *T, n int) {
	sk, pk := newKey()
	for i := 0; i < n; i++ {
		mk := func(p string) map[string]int64 {
			m := map[string]int64{}
			for j := 0; j < t.R.Intn(4); j++ {
				m[fmt.Sprint(p, j)] = int64(t.R.Intn(2000)) - 500
			}
			if len(m) == 0 && t.R.Intn(2) == 0 {
				return nil
			}
			return m
		}
		in := libunlynx.DpClearResponse{WhereClear: mk("w"), WhereEnc: mk("w"), GroupByClear: mk("g"), GroupByEnc: mk("g"), AggregatingAttributesClear: mk("s"), AggregatingAttributesEnc: mk("s")}
		count := t.R.Intn(2) == 0
		snap := fmt.Sprint(in)
		shape := fmt.Sprintf("%d%d%d%d%d%d%v", len(in.WhereClear), len(in.WhereEnc), len(in.GroupByClear), len(in.GroupByEnc), len(in.AggregatingAttributesClear), len(in.AggregatingAttributesEnc), count)
		t.guard("DpResponse", shape, func() error {
			ts, err := libunlynx.EncryptDpClearResponse(in, pk, count)
			if err != nil {
				return err
			}
			t.Check(fmt.Sprint(in) == snap, "DpResponse:changed", "encrypting a response changed it")
			protoTrip(&ts, &ts)
			d := libunlynx.DpResponse{}
			if err := d.FromDpResponseToSend(ts); err != nil {
				return err
			}
			clear := func(x, y map[string]int64, what string) {
				ok := len(x) == len(y)
				for k, v := range x {
					w, in := y[k]
					ok = ok && in && v == w
				}
				t.Check(ok, "DpResponse", "%s: %v became %v", what, x, y)
			}
			enc := func(x map[string]int64, y map[string]libunlynx.CipherText, what string, count bool) {
				want := map[string]int64{}
				for k, v := range x {
					want[k] = v
				}
				if count {
					want["count"] = 1
				}
				ok := len(want) == len(y)
				for k, v := range want {
					c, in := y[k]
					ok = ok && in && isEnc(sk, &c, v)
				}
				t.Check(ok, "DpResponse", "%s: %v became %d ciphertexts which do not decrypt to it", what, want, len(y))
			}
			clear(in.WhereClear, d.WhereClear, "clear where")
			clear(in.GroupByClear, d.GroupByClear, "clear group by")
			clear(in.AggregatingAttributesClear, d.AggregatingAttributesClear, "clear attributes")
			enc(in.WhereEnc, d.WhereEnc, "where", false)
			enc(in.GroupByEnc, d.GroupByEnc, "group by", false)
			enc(in.AggregatingAttributesEnc, d.AggregatingAttributesEnc, "attributes", count)
			mc, err := libunlynx.MapBytesToMapCipherText(ts.WhereEnc)
			if err != nil {
				return err
			}
			enc(in.WhereEnc, mc, "map", false)
			return nil
		})
	}
	t.Sample("%d client responses of random attribute sets, encrypted, sent, decoded", n)
}

// c03Big encodes more than 2^16 elements.
func c03Big(t *T, n int) {
	g := newGen(t)
	v := g.vec(n)
	snap := vecBytes(v)
	t.guard("CipherVector", fmt.Sprint(n), func() error {
		b, k, err := v.ToBytes()
		if err != nil {
			return err
		}
		w := libunlynx.CipherVector{}
		if err := w.FromBytes(b, k); err != nil {
			return err
		}
		t.Check(k == n && vecBytes(w) == snap, "CipherVector", "round trip of %d elements differs", n)
		return nil
	})
	t.guard("DeterministicTaggingMessage", fmt.Sprint(n), func() error {
		m := protocolsunlynx.DeterministicTaggingMessage{Data: v}
		b, err := m.ToBytes()
		if err != nil {
			return err
		}
		d := protocolsunlynx.DeterministicTaggingMessage{}
		if err := d.FromBytes(b); err != nil {
			return err
		}
		t.Check(len(d.Data) == n && vecBytes(d.Data) == snap, "DeterministicTaggingMessage", "round trip of %d elements differs", n)
		return nil
	})
	for _, m := range [][]libunlynx.CipherVector{{v[:1], v, v[:2]}, nil} {
		if m == nil {
			for i := range v {
				m = append(m, v[i:i+1])
			}
		}
		t.guard("CipherVectors", fmt.Sprint(len(m), "rows of", n), func() error {
			snap := matBytes(m)
			b, l, err := libunlynx.ArrayCipherVectorToBytes(m)
			if err != nil {
				return err
			}
			d, err := libunlynx.FromBytesToArrayCipherVector(b, l)
			if err != nil {
				return err
			}
			t.Check(matBytes(d) == snap, "CipherVectors", "round trip of %d rows differs", len(m))
			return nil
		})
	}
	t.Sample("%d elements", n)
}

func c03Keys(t *T, n int) {
	edge := []int64{0, 1, -1, 9, 10, 11, 99, 100, -10, -123, 12345678901, math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32}
	seenKey := map[libunlynx.GroupingKey]string{}
	g := newGen(t)
	detKey := map[libunlynx.GroupingKey]string{}
	for i := 0; i < n; i++ {
		l := t.R.Intn(5)
		if i%40 == 0 {
			l = 20
		} else if i%100 == 7 {
			l = 254 + t.R.Intn(60)
		}
		x := make([]int64, l)
		for j := range x {
			switch t.R.Intn(3) {
			case 0:
				x[j] = edge[t.R.Intn(len(edge))]
			case 1:
				x[j] = int64(t.R.Intn(30) - 10)
			default:
				x[j] = t.R.Int63() - t.R.Int63()
			}
		}
		shape := fmt.Sprint(x)
		t.guard("GroupingKey", strings.Trim(shape, "[]"), func() error {
			k := libunlynx.Key(x)
			if s, in := seenKey[k]; in {
				t.Check(s == shape, "GroupingKey:collision", "%s and %s have the same key %q", s, shape, k)
			}
			seenKey[k] = shape
			y, err := libunlynx.UnKey(k)
			if err != nil {
				return err
			}
			t.Check(eqInts(x, y), "GroupingKey", "%v became %v", x, y)
			return nil
		})
		t.guard("NumberList", strings.Trim(shape, "[]"), func() error {
			y := libunlynxtools.StringToInt64Array(libunlynxtools.Int64ArrayToString(x))
			t.Check(eqInts(x, y), "NumberList", "%v became %v", x, y)
			for _, start := range []int{0, 1, 7} {
				m := libunlynxtools.ConvertDataToMap(x, "s", start)
				t.Check(len(m) == len(x), "NumberMap", "%v became %v", x, m)
				for j, v := range x {
					w, in := m[fmt.Sprint("s", start+j)]
					t.Check(in && w == v, "NumberMap", "%v became %v from %d", x, m, start)
				}
				t.Check(eqInts(libunlynxtools.ConvertMapToData(m, "s", start), x), "NumberMap", "%v from %d does not come back", x, start)
			}
			return nil
		})
		t.guard("Lengths", strings.Trim(shape, "[]"), func() error {
			var u []int
			for _, v := range x {
				u = append(u, int(uint32(v)))
			}
			w := libunlynxtools.UnsafeCastBytesToInts(libunlynxtools.UnsafeCastIntsToBytes(u))
			ok := len(u) == len(w)
			for j := 0; ok && j < len(u); j++ {
				ok = u[j] == w[j]
			}
			t.Check(ok, "Lengths", "%v became %v", u, w)
			return nil
		})
		if i%10 == 0 {
			dv := make(libunlynx.DeterministCipherVector, l)
			s := fmt.Sprint(l)
			for j := range dv {
				dv[j].Point = g.point()
				s += ps(dv[j].Point)
			}
			k := dv.Key()
			if o, in := detKey[k]; in {
				t.Check(o == s, "DetKey:collision", "two deterministic vectors have the same key")
			}
			detKey[k] = s
			t.Nontrivial("detkey/%s", s)
		}
	}
	ks := make([]string, 0, len(seenKey))
	for k := range seenKey {
		ks = append(ks, string(k))
	}
	sort.Strings(ks)
	t.Sample("%d number lists, e.g. %q", n, ks[:minInt(4, len(ks))])
}

func c03Cases(tier string, seed int64) []Case {
	var out []Case
	reps := 1
	if tier == "thorough" {
		reps = 12
	}
	for r := 0; r < reps; r++ {
		out = append(out, Case{Name: fmt.Sprint("cipher-", r), Cost: 4, Run: func(t *T) { c03Cipher(t, 30) }})
		for i := 0; i < 4; i++ {
			out = append(out, Case{Name: fmt.Sprint("mats-", i, "-", r), Cost: 3, Run: func(t *T) { c03Mats(t, 25) }})
			out = append(out, Case{Name: fmt.Sprint("responses-", i, "-", r), Cost: 3, Run: func(t *T) { c03Responses(t, 40) }})
		}
		if r == 0 {
			for i, n := range []int{65537, 65535, 131080} {
				if i == 0 || tier == "thorough" {
					n := n
					out = append(out, Case{Name: fmt.Sprint("big-", n), Cost: 20, Run: func(t *T) { c03Big(t, n) }})
				}
			}
		}
		out = append(out, Case{Name: fmt.Sprint("clients-", r), Cost: 2, Run: func(t *T) { c03Clients(t, 80) }})
		out = append(out, Case{Name: fmt.Sprint("forms-", r), Cost: 2, Run: func(t *T) { c03Forms(t, 60) }})
		out = append(out, Case{Name: fmt.Sprint("keys-", r), Cost: 1, Run: func(t *T) { c03Keys(t, 600) }})
	}
	return out
}
