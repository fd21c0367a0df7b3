package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"runtime"

	dataunlynx "github.com/ldsec/unlynx/data"
	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxaggr "github.com/ldsec/unlynx/lib/aggregation"
	libunlynxkeyswitch "github.com/ldsec/unlynx/lib/key_switch"
	libunlynxshuffle "github.com/ldsec/unlynx/lib/shuffle"
	libunlynxtools "github.com/ldsec/unlynx/lib/tools"
	protocolsunlynx "github.com/ldsec/unlynx/protocols"
	"go.dedis.ch/kyber/v3"
)

func init() {
	register(&Check{
		ID:          "C04",
		Rule:        "a case feeds one decoder with mutations of valid encodings: every truncation near every component boundary, extensions, bit flips, non-canonical and off-curve points, swapped and corrupted length fields (negative, huge, off by one), empty and random bytes; the monitor watches for a panic in any goroutine, process exit, a stall, and the bytes allocated by the call; a decoded value is used once; an evaluation is one call, non-trivial when the input differs from a valid encoding (distinct by decoder, mutation and outcome class)",
		Assumptions: []string{"a call may allocate 16 MB plus 4000 times the size of its input"},
		Cases:       c04Cases,
	})
}

// decoder: blobs and ints are its whole input.
type decoder struct {
	name  string
	valid func(g *gen) ([][]byte, []int64)
	run   func(b [][]byte, n []int64) error
}

func must1(b []byte, err error) []byte { must(err); return b }

func useVec(v libunlynx.CipherVector) {
	for i := range v {
		if v[i].K == nil || v[i].C == nil {
			panic(fmt.Sprintf("decoding reported success but element %d of %d has no point", i, len(v)))
		}
		_ = v[i].String()
	}
	_, _, err := v.ToBytes()
	must(err)
}

func decoders() []decoder {
	ct := func(g *gen) []byte { c := g.ct(); return must1(c.ToBytes()) }
	vec := func(g *gen, n int) []byte { v := g.vec(n); b, _, err := v.ToBytes(); must(err); return b }
	mat := func(g *gen) ([]byte, []byte) {
		b, l, err := libunlynx.ArrayCipherVectorToBytes(g.mat())
		must(err)
		return b, l
	}
	useMat := func(m []libunlynx.CipherVector) {
		for _, v := range m {
			useVec(v)
		}
	}
	return []decoder{
		{"CipherText.FromBytes", func(g *gen) ([][]byte, []int64) { return [][]byte{ct(g)}, nil }, func(b [][]byte, n []int64) error {
			c := libunlynx.CipherText{}
			if err := c.FromBytes(b[0]); err != nil {
				return err
			}
			useVec(libunlynx.CipherVector{c})
			return nil
		}},
		{"CipherText.Deserialize", func(g *gen) ([][]byte, []int64) {
			c := g.ct()
			s, err := c.Serialize()
			must(err)
			return [][]byte{[]byte(s)}, nil
		}, func(b [][]byte, n []int64) error {
			c := libunlynx.NewCipherText()
			if err := c.Deserialize(string(b[0])); err != nil {
				return err
			}
			useVec(libunlynx.CipherVector{*c})
			d, err := libunlynx.NewCipherTextFromBase64(string(b[0]))
			if err != nil {
				return err
			}
			useVec(libunlynx.CipherVector{*d})
			return nil
		}},
		{"NewCipherTextFromBase64", func(g *gen) ([][]byte, []int64) {
			c := g.ct()
			s, err := c.Serialize()
			must(err)
			return [][]byte{[]byte(s)}, nil
		}, func(b [][]byte, n []int64) error {
			d, err := libunlynx.NewCipherTextFromBase64(string(b[0]))
			if err != nil {
				return err
			}
			useVec(libunlynx.CipherVector{*d})
			return nil
		}},
		{"DeserializePoint", func(g *gen) ([][]byte, []int64) {
			s, err := libunlynx.SerializePoint(g.point())
			must(err)
			return [][]byte{[]byte(s)}, nil
		}, func(b [][]byte, n []int64) error {
			p, err := libunlynx.DeserializePoint(string(b[0]))
			if err == nil {
				_ = p.String()
			}
			return err
		}},
		{"DeserializeScalar", func(g *gen) ([][]byte, []int64) {
			k, _ := newKey()
			s, err := libunlynx.SerializeScalar(k)
			must(err)
			return [][]byte{[]byte(s)}, nil
		}, func(b [][]byte, n []int64) error {
			p, err := libunlynx.DeserializeScalar(string(b[0]))
			if err == nil {
				_ = p.String()
			}
			return err
		}},
		{"CipherVector.FromBytes", func(g *gen) ([][]byte, []int64) {
			k := g.small()
			return [][]byte{vec(g, k)}, []int64{int64(k)}
		}, func(b [][]byte, n []int64) error {
			v := libunlynx.CipherVector{}
			if err := v.FromBytes(b[0], int(n[0])); err != nil {
				return err
			}
			useVec(v)
			return nil
		}},
		{"FromBytesToAbstractPoints", func(g *gen) ([][]byte, []int64) { return [][]byte{vec(g, g.small())}, nil }, func(b [][]byte, n []int64) error {
			p, err := libunlynx.FromBytesToAbstractPoints(b[0])
			for i := range p {
				if err == nil {
					_ = p[i].String()
				}
			}
			return err
		}},
		{"FromBytesToArrayCipherVector", func(g *gen) ([][]byte, []int64) { b, l := mat(g); return [][]byte{b, l}, nil }, func(b [][]byte, n []int64) error {
			m, err := libunlynx.FromBytesToArrayCipherVector(b[0], b[1])
			if err == nil {
				useMat(m)
			}
			return err
		}},
		{"ShufflingMessage.FromBytes", func(g *gen) ([][]byte, []int64) { b, l := mat(g); return [][]byte{b, l}, nil }, func(b [][]byte, n []int64) error {
			m := protocolsunlynx.ShufflingMessage{}
			err := m.FromBytes(b[0], b[1])
			if err == nil {
				useMat(m.Data)
			}
			return err
		}},
		{"ShufflingPlusDDTMessage.FromBytes", func(g *gen) ([][]byte, []int64) {
			b, l := mat(g)
			return [][]byte{b, must1(g.point().MarshalBinary()), l}, nil
		}, func(b [][]byte, n []int64) error {
			m := protocolsunlynx.ShufflingPlusDDTMessage{}
			err := m.FromBytes(b[0], b[1], b[2])
			if err == nil {
				useMat(m.Data)
				_ = m.ShuffKey.String()
			}
			return err
		}},
		{"DeterministicTaggingMessage.FromBytes", func(g *gen) ([][]byte, []int64) {
			k := g.small()
			if g.t.R.Intn(6) == 0 {
				k = 99 + g.t.R.Intn(4)
			}
			return [][]byte{vec(g, k)}, nil
		}, func(b [][]byte, n []int64) error {
			m := protocolsunlynx.DeterministicTaggingMessage{}
			err := m.FromBytes(b[0])
			if err == nil {
				useVec(m.Data)
			}
			return err
		}},
		{"ChildAggregatedDataMessage.FromBytes", func(g *gen) ([][]byte, []int64) {
			m := protocolsunlynx.ChildAggregatedDataMessage{}
			a, b := g.t.R.Intn(3), g.small()
			for i := 0; i < g.small(); i++ {
				m.ChildData = append(m.ChildData, libunlynx.FilteredResponseDet{DetTagGroupBy: libunlynx.GroupingKey(fmt.Sprintf("%064x", i)), Fr: libunlynx.FilteredResponse{GroupByEnc: g.vec(a), AggregatingAttributes: g.vec(b)}})
			}
			by, x, y, z, err := m.ToBytes()
			must(err)
			return [][]byte{by}, []int64{int64(x), int64(y), int64(z)}
		}, func(b [][]byte, n []int64) error {
			m := protocolsunlynx.ChildAggregatedDataMessage{}
			err := m.FromBytes(b[0], int(n[0]), int(n[1]), int(n[2]))
			if err == nil {
				for _, c := range m.ChildData {
					useVec(c.Fr.GroupByEnc)
					useVec(c.Fr.AggregatingAttributes)
				}
			}
			return err
		}},
		{"FilteredResponse.FromBytes", func(g *gen) ([][]byte, []int64) {
			f := libunlynx.FilteredResponse{GroupByEnc: g.vec(g.small()), AggregatingAttributes: g.vec(g.small())}
			b, x, y, err := f.ToBytes()
			must(err)
			return [][]byte{b}, []int64{int64(y), int64(x)}
		}, func(b [][]byte, n []int64) error {
			f := libunlynx.FilteredResponse{}
			err := f.FromBytes(b[0], int(n[0]), int(n[1]))
			if err == nil {
				useVec(f.GroupByEnc)
				useVec(f.AggregatingAttributes)
			}
			return err
		}},
		{"FilteredResponseDet.FromBytes", func(g *gen) ([][]byte, []int64) {
			f := libunlynx.FilteredResponseDet{DetTagGroupBy: g.tag(), Fr: libunlynx.FilteredResponse{GroupByEnc: g.vec(g.small()), AggregatingAttributes: g.vec(g.small())}}
			b, x, y, z, err := f.ToBytes()
			must(err)
			return [][]byte{b}, []int64{int64(x), int64(y), int64(z)}
		}, func(b [][]byte, n []int64) error {
			f := libunlynx.FilteredResponseDet{}
			err := f.FromBytes(b[0], int(n[0]), int(n[1]), int(n[2]))
			if err == nil {
				useVec(f.Fr.GroupByEnc)
				useVec(f.Fr.AggregatingAttributes)
			}
			return err
		}},
		{"ProcessResponse.FromBytes", func(g *gen) ([][]byte, []int64) {
			f := libunlynx.ProcessResponse{WhereEnc: g.vec(g.small()), GroupByEnc: g.vec(g.small()), AggregatingAttributes: g.vec(g.small())}
			b, x, y, z, err := f.ToBytes()
			must(err)
			return [][]byte{b}, []int64{int64(x), int64(y), int64(z)}
		}, func(b [][]byte, n []int64) error {
			f := libunlynx.ProcessResponse{}
			err := f.FromBytes(b[0], int(n[0]), int(n[1]), int(n[2]))
			if err == nil {
				useVec(f.WhereEnc)
				useVec(f.GroupByEnc)
				useVec(f.AggregatingAttributes)
			}
			return err
		}},
		{"ProcessResponseDet.FromBytes", func(g *gen) ([][]byte, []int64) {
			f := libunlynx.ProcessResponseDet{PR: libunlynx.ProcessResponse{WhereEnc: g.vec(g.small()), GroupByEnc: g.vec(g.small()), AggregatingAttributes: g.vec(g.small())}, DetTagGroupBy: g.tag()}
			for range f.PR.WhereEnc {
				f.DetTagWhere = append(f.DetTagWhere, g.tag())
			}
			b, x, y, z, u, v, err := f.ToBytes()
			must(err)
			return [][]byte{b}, []int64{int64(x), int64(y), int64(z), int64(u), int64(v)}
		}, func(b [][]byte, n []int64) error {
			f := libunlynx.ProcessResponseDet{}
			err := f.FromBytes(b[0], int(n[0]), int(n[1]), int(n[2]), int(n[3]), int(n[4]))
			if err == nil {
				useVec(f.PR.WhereEnc)
				useVec(f.PR.GroupByEnc)
				useVec(f.PR.AggregatingAttributes)
			}
			return err
		}},
		{"DpResponse.FromDpResponseToSend", func(g *gen) ([][]byte, []int64) { return [][]byte{ct(g), ct(g), ct(g)}, nil }, func(b [][]byte, n []int64) error {
			d := libunlynx.DpResponse{}
			err := d.FromDpResponseToSend(libunlynx.DpResponseToSend{WhereEnc: map[string][]byte{"w0": b[0]}, GroupByEnc: map[string][]byte{"g0": b[1]}, AggregatingAttributesEnc: map[string][]byte{"s0": b[2]}})
			if err == nil {
				useVec(libunlynx.CipherVector{d.WhereEnc["w0"], d.GroupByEnc["g0"], d.AggregatingAttributesEnc["s0"]})
			}
			return err
		}},
		{"MapBytesToMapCipherText", func(g *gen) ([][]byte, []int64) { return [][]byte{ct(g), ct(g)}, nil }, func(b [][]byte, n []int64) error {
			m, err := libunlynx.MapBytesToMapCipherText(map[string][]byte{"a": b[0], "b": b[1]})
			if err == nil {
				useVec(libunlynx.CipherVector{m["a"], m["b"]})
			}
			return err
		}},
		{"PublishedKSProof.FromBytes", func(g *gen) ([][]byte, []int64) {
			return [][]byte{must1(libunlynx.AbstractPointsToBytes([]kyber.Point{g.point(), g.point(), g.point(), g.point(), g.point()})), ct(g)}, nil
		}, func(b [][]byte, n []int64) error {
			p := libunlynxkeyswitch.PublishedKSProof{}
			err := p.FromBytes(libunlynxkeyswitch.PublishedKSProofBytes{Proof: b[1], KVibKs2RbNegQ: b[0]})
			if err == nil {
				_, err = p.ToBytes()
				must(err)
			}
			return err
		}},
		{"PublishedKSListProof.FromBytes", func(g *gen) ([][]byte, []int64) {
			five := must1(libunlynx.AbstractPointsToBytes([]kyber.Point{g.point(), g.point(), g.point(), g.point(), g.point()}))
			return [][]byte{five, ct(g), five}, nil
		}, func(b [][]byte, n []int64) error {
			p := libunlynxkeyswitch.PublishedKSListProof{}
			err := p.FromBytes(libunlynxkeyswitch.PublishedKSListProofBytes{List: []libunlynxkeyswitch.PublishedKSProofBytes{{Proof: b[1], KVibKs2RbNegQ: b[0]}, {Proof: b[1], KVibKs2RbNegQ: b[2]}}})
			if err == nil {
				_, err = p.ToBytes()
				must(err)
			}
			return err
		}},
		{"PublishedAggregationProof.FromBytes", func(g *gen) ([][]byte, []int64) {
			k := g.small()
			return [][]byte{vec(g, k), ct(g)}, []int64{int64(k)}
		}, func(b [][]byte, n []int64) error {
			p := libunlynxaggr.PublishedAggregationProof{}
			err := p.FromBytes(libunlynxaggr.PublishedAggregationProofBytes{Data: b[0], DataLen: n[0], AggregationResult: b[1]})
			if err == nil {
				useVec(p.Data)
			}
			return err
		}},
		{"PublishedAggregationListProof.FromBytes", func(g *gen) ([][]byte, []int64) {
			k := g.small()
			return [][]byte{vec(g, k), ct(g), vec(g, 2)}, []int64{int64(k)}
		}, func(b [][]byte, n []int64) error {
			p := libunlynxaggr.PublishedAggregationListProof{}
			err := p.FromBytes(libunlynxaggr.PublishedAggregationListProofBytes{List: []libunlynxaggr.PublishedAggregationProofBytes{{Data: b[0], DataLen: n[0], AggregationResult: b[1]}, {Data: b[2], DataLen: 2, AggregationResult: b[1]}}})
			if err == nil {
				for _, x := range p.List {
					useVec(x.Data)
				}
			}
			return err
		}},
		{"PublishedShufflingProof.FromBytes", func(g *gen) ([][]byte, []int64) {
			b, l := mat(g)
			c, m := mat(g)
			return [][]byte{b, l, c, m, must1(g.point().MarshalBinary()), must1(g.point().MarshalBinary()), ct(g)}, []int64{0}
		}, func(b [][]byte, n []int64) error {
			p := libunlynxshuffle.PublishedShufflingProof{}
			pb := libunlynxshuffle.PublishedShufflingProofBytes{OriginalList: &b[0], OriginalListLength: &b[1], ShuffledList: &b[2], ShuffledListLength: &b[3], G: &b[4], H: &b[5], HashProof: b[6]}
			// n[0] selects fields missing from the message
			switch n[0] {
			case 0:
			case 1, -1:
				pb.OriginalList = nil
			case math.MaxInt32:
				pb.OriginalListLength = nil
			case math.MaxInt64:
				pb.ShuffledList = nil
			case math.MinInt64:
				pb.ShuffledListLength = nil
			case 1 << 20:
				pb.G = nil
			default:
				pb.H = nil
			}
			err := p.FromBytes(pb)
			if err == nil {
				useMat(p.OriginalList)
				useMat(p.ShuffledList)
				_, err = p.ToBytes()
				must(err)
			}
			return err
		}},
		{"DecodeCipherVectorScalar", func(g *gen) ([][]byte, []int64) {
			s, _ := newKey()
			return [][]byte{must1(g.point().MarshalBinary()), must1(g.point().MarshalBinary()), must1(s.MarshalBinary())}, []int64{2}
		}, func(b [][]byte, n []int64) error {
			pair := [][]byte{b[0], b[1]}
			switch {
			case n[0] < 1:
				pair = nil
			case n[0] == 1:
				pair = pair[:1]
			case n[0] > 2:
				pair = append(pair, b[0])
			}
			m, err := libunlynxshuffle.DecodeCipherVectorScalar([]libunlynxshuffle.CipherVectorScalarBytes{{CipherV: [][][]byte{pair}, S: [][]byte{b[2]}}})
			if err == nil {
				for _, x := range m {
					useVec(x.CipherV)
				}
			}
			return err
		}},
		{"UnsafeCastBytesToInts", func(g *gen) ([][]byte, []int64) {
			return [][]byte{libunlynxtools.UnsafeCastIntsToBytes([]int{1, 2, 3})}, nil
		}, func(b [][]byte, n []int64) error {
			libunlynxtools.UnsafeCastBytesToInts(b[0])
			return nil
		}},
		{"UnKey", func(g *gen) ([][]byte, []int64) {
			return [][]byte{[]byte(libunlynx.Key([]int64{1, 22, -3}))}, nil
		}, func(b [][]byte, n []int64) error {
			_, err := libunlynx.UnKey(libunlynx.GroupingKey(b[0]))
			return err
		}},
		{"StringToInt64Array", func(g *gen) ([][]byte, []int64) {
			return [][]byte{[]byte(libunlynxtools.Int64ArrayToString([]int64{1, 22, -3}))}, nil
		}, func(b [][]byte, n []int64) error {
			libunlynxtools.StringToInt64Array(string(b[0]))
			return nil
		}},
		{"ReadPrecomputedFile", func(g *gen) ([][]byte, []int64) {
			return [][]byte{validGob(g)}, nil
		}, func(b [][]byte, n []int64) error {
			f := filepath.Join(os.TempDir(), fmt.Sprintf("verif-c04-%d.gob", os.Getpid()))
			must(os.WriteFile(f, b[0], 0600))
			defer os.Remove(f)
			m, err := libunlynxshuffle.ReadPrecomputedFile(f)
			if err == nil {
				for _, x := range m {
					useVec(x.CipherV)
				}
			}
			return err
		}},
		{"ReadDataFromFile", func(g *gen) ([][]byte, []int64) {
			return [][]byte{validData(g)}, nil
		}, func(b [][]byte, n []int64) error {
			f := filepath.Join(os.TempDir(), fmt.Sprintf("verif-c04-%d.txt", os.Getpid()))
			must(os.WriteFile(f, b[0], 0600))
			defer os.Remove(f)
			_, err := dataunlynx.ReadDataFromFile(f)
			return err
		}},
	}
}

func validGob(g *gen) []byte {
	_, h := newKey()
	tab := libunlynxshuffle.CreatePrecomputedRandomize(suite.Point().Base(), h, suite.RandomStream(), 2, 2)
	e, err := libunlynxshuffle.EncodeCipherVectorScalar(tab)
	must(err)
	f := filepath.Join(os.TempDir(), fmt.Sprintf("verif-c04v-%d.gob", os.Getpid()))
	must(libunlynxtools.WriteToGobFile(f, e))
	defer os.Remove(f)
	return must1(os.ReadFile(f))
}

func validData(g *gen) []byte {
	f := filepath.Join(os.TempDir(), fmt.Sprintf("verif-c04v-%d.txt", os.Getpid()))
	d, err := dataunlynx.GenerateData(2, 3, 3, 1, 1, 1, 1, 1, 1, []int64{2, 2}, true)
	if err != nil || dataunlynx.WriteDataToFile(f, d) != nil {
		return []byte("#0\nw0 1 \n")
	}
	defer os.Remove(f)
	return must1(os.ReadFile(f))
}

var badInts = []int64{-1, 0, 1, 2, 3, math.MaxInt32, math.MaxInt64, math.MinInt64, 1 << 20, 1 << 58, 1 << 40}

// mutate derives one hostile input and names the mutation.
func mutate(t *T, b [][]byte, n []int64) ([][]byte, []int64, string) {
	b2 := make([][]byte, len(b))
	for i := range b {
		b2[i] = append([]byte{}, b[i]...)
	}
	n2 := append([]int64{}, n...)
	i := t.R.Intn(len(b2))
	x := b2[i]
	kind := ""
	op := t.R.Intn(13)
	if len(n2) > 0 && t.R.Intn(3) == 0 {
		op = 13 + t.R.Intn(3)
	}
	switch op {
	case 0:
		kind = "empty"
		b2[i] = []byte{}
	case 1:
		kind = "nil"
		b2[i] = nil
	case 2:
		kind = "truncate-1"
		if len(x) > 0 {
			b2[i] = x[:len(x)-1]
		}
	case 3:
		kind = "truncate-random"
		if len(x) > 0 {
			b2[i] = x[:t.R.Intn(len(x))]
		}
	case 4:
		kind = "truncate-point"
		if len(x) >= 32 {
			b2[i] = x[:len(x)/32*32-32]
		}
	case 5:
		kind = "extend-1"
		b2[i] = append(x, byte(t.R.Intn(256)))
	case 6:
		kind = "extend-32"
		e := make([]byte, 32)
		t.R.Read(e)
		b2[i] = append(x, e...)
	case 7:
		kind = "flip"
		if len(x) > 0 {
			x[t.R.Intn(len(x))] ^= 1 << uint(t.R.Intn(8))
		}
	case 8:
		kind = "random-point"
		if len(x) >= 32 {
			p := t.R.Intn(len(x)/32) * 32
			t.R.Read(x[p : p+32])
		}
	case 9:
		kind = "high-point"
		if len(x) >= 32 {
			p := t.R.Intn(len(x)/32) * 32
			for k := 0; k < 32; k++ {
				x[p+k] = 0xff
			}
		}
	case 10:
		kind = "random-bytes"
		b2[i] = make([]byte, t.R.Intn(300))
		t.R.Read(b2[i])
	case 11:
		kind = "huge-length-word"
		if len(x) >= 4 {
			p := t.R.Intn(len(x)/4) * 4
			binary.BigEndian.PutUint32(x[p:], []uint32{0xffffffff, 0x7fffffff, 0x80000000, 0x00ffffff, 1, 0, 2}[t.R.Intn(7)])
		}
	case 12:
		kind = "truncate-all"
		for k := range b2 {
			if len(b2[k]) > 0 {
				b2[k] = b2[k][:t.R.Intn(len(b2[k]))]
			}
		}
	default:
		k := t.R.Intn(len(n2))
		switch op {
		case 13:
			v := badInts[t.R.Intn(len(badInts))]
			kind = fmt.Sprint("int=", v)
			n2[k] = v
		case 14:
			d := []int64{-1, 1, -2, 2}[t.R.Intn(4)]
			kind = fmt.Sprint("int+", d)
			n2[k] += d
		case 15:
			kind = "ints"
			for k := range n2 {
				n2[k] = badInts[t.R.Intn(len(badInts))]
			}
		}
	}
	return b2, n2, kind
}

func c04Run(t *T, d decoder, rounds int) {
	g := newGen(t)
	var m0, m1 runtime.MemStats
	call := func(b [][]byte, n []int64, kind string) {
		size := 0
		for _, x := range b {
			size += len(x)
		}
		var err error
		runtime.ReadMemStats(&m0)
		// the input is given with no spare capacity behind it
		for i := range b {
			b[i] = b[i][:len(b[i]):len(b[i])]
		}
		t.Seen("about", d.name+"/"+kind)
		p := noPanic(func() { err = d.run(b, n) })
		runtime.ReadMemStats(&m1)
		al := m1.TotalAlloc - m0.TotalAlloc
		out := "value"
		if err != nil {
			out = "error"
			t.Count("refusals", 1)
		}
		t.Check(p == "", d.name+":panic", "%s with %s, %d bytes, numbers %v: panic: %s", d.name, kind, size, n, p)
		t.Check(al < 16<<20+4000*uint64(size), d.name+":alloc", "%s with %s, %d bytes, numbers %v allocated %d bytes", d.name, kind, size, n, al)
		t.Nontrivial("%s/%s/%s", d.name, kind, out)
	}
	for r := 0; r < rounds; r++ {
		b, n := d.valid(g)
		if r == 0 {
			if p := noPanic(func() {
				if err := d.run(b, n); err != nil {
					t.Fail(d.name+":valid", "%s refuses a valid encoding: %v", d.name, err)
				}
			}); p != "" {
				t.Fail(d.name+":valid", "%s panics on a valid encoding: %s", d.name, p)
			}
			t.Sample("%s: valid encoding of %d blobs, numbers %v, mutated %d times", d.name, len(b), n, rounds*6)
		}
		for k := 0; k < 6; k++ {
			b2, n2, kind := mutate(t, b, n)
			if k == 5 {
				var k2 string
				b2, n2, k2 = mutate(t, b2, n2)
				kind += "+" + k2
			}
			call(b2, n2, kind)
		}
	}
	// truncations at every length of a small valid input
	b, n := d.valid(g)
	for i := range b {
		for l := 0; l < len(b[i]) && l < 400; l++ {
			c := append([][]byte{}, b...)
			c[i] = append([]byte{}, b[i][:l]...)
			call(c, append([]int64{}, n...), fmt.Sprintf("cut%d@%d", i, l))
		}
	}
}

func c04Cases(tier string, seed int64) []Case {
	rounds, shards := 120, 1
	if tier == "thorough" {
		rounds, shards = 1500, 4
	}
	var out []Case
	for _, d := range decoders() {
		d := d
		for s := 0; s < shards; s++ {
			out = append(out, Case{Name: fmt.Sprint(d.name, "-", s), Cost: 1, Run: func(t *T) { c04Run(t, d, rounds) }})
		}
	}
	return out
}
