package main

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"

	dataunlynx "github.com/ldsec/unlynx/data"
	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxaddrm "github.com/ldsec/unlynx/lib/add_rm"
	libunlynxaggr "github.com/ldsec/unlynx/lib/aggregation"
	libunlynxdetertag "github.com/ldsec/unlynx/lib/deterministic_tag"
	libunlynxdiffprivacy "github.com/ldsec/unlynx/lib/differential_privacy"
	libunlynxkeyswitch "github.com/ldsec/unlynx/lib/key_switch"
	libunlynxshuffle "github.com/ldsec/unlynx/lib/shuffle"
	libunlynxtools "github.com/ldsec/unlynx/lib/tools"
	protocolsunlynx "github.com/ldsec/unlynx/protocols"
	servicesunlynx "github.com/ldsec/unlynx/services"
	"go.dedis.ch/kyber/v3"
)

func init() {
	register(&Check{
		ID:    "C22",
		NetNS: true,
		Race:  true,
		Rule:  "everything is built with Go's race detector, which watches every memory access of: library calls made at the same time on the same inputs; surveys at the same time on the same servers, with data providers, repeated and invalid requests at the same time; and the workloads of the other checks (vector operations split over goroutines, protocol instances side by side, utility protocols, stores, surveys). A violation is a report of which one of the accesses belongs to the module (and neither to the harness itself), or a process that crashes or stops. An evaluation is one workload unit run under the detector (distinct by what ran together)",
		Assumptions: []string{
			"the detector reports races of the executions that happen (happens-before), not of all schedules",
			"callers do not modify values that they passed to a call that is still running",
		},
		Cases: c22Cases,
	})
}

// ---- library calls at the same time on the same inputs

type c22World struct {
	sk, k, s kyber.Scalar
	pk, K, Q kyber.Point
	vals     []int64
	x, y     libunlynx.CipherVector
	rbs      []kyber.Point
	rows     []libunlynx.CipherVector
	table    []libunlynxshuffle.CipherVectorScalar
	resps    []libunlynx.DpClearResponse
	added    libunlynx.FilteredResponse
	bytes    []byte
	dir      string
	files    map[string][]libunlynx.DpClearResponse
	ksp      libunlynxkeyswitch.PublishedKSListProof
	tagp     libunlynxdetertag.PublishedDDTCreationListProof
	aggp     libunlynxaggr.PublishedAggregationListProof
	armp     libunlynxaddrm.PublishedAddRmListProof
	shufp    libunlynxshuffle.PublishedShufflingListProof
	ks       *ksStep
	tag      *tagStep
	add      *addStep
	agg      *aggStep
	arm      *armStep
	shuf     *shufStep
	shufB    libunlynxshuffle.PublishedShufflingProofBytes
}

func newC22World(t *T, n int) *c22World {
	w := &c22World{dir: t.Dir}
	w.sk, w.pk = newKey()
	w.k, w.K = newKey()
	w.s, w.Q = newKey()
	w.vals = randInts(t.R, n, 900)
	w.x, w.y = encVec(w.pk, w.vals), encVec(w.pk, randInts(t.R, n, 900))
	for _, c := range w.x {
		w.rbs = append(w.rbs, c.K)
	}
	width := 1 + t.R.Intn(4)
	for i := 0; i+width <= n && i < 6*width; i += width {
		w.rows = append(w.rows, w.x[i:i+width])
	}
	w.table = libunlynxshuffle.CreatePrecomputedRandomize(suite.Point().Base(), w.pk, suite.RandomStream(), width, 4)
	q := surveyShape{sums: 3, groups: 2, where: 2}.query(t.R)
	for i := 0; i < 4; i++ {
		w.resps = append(w.resps, randResponse(t.R, q, "mixed", 2, 9, false))
	}
	w.files = map[string][]libunlynx.DpClearResponse{"0": nil, "1": nil}
	for i := 0; i < 3; i++ {
		w.files["0"] = append(w.files["0"], randResponse(t.R, q, "enc", 2, 9, false))
	}
	w.added = libunlynx.FilteredResponse{GroupByEnc: w.x[:1], AggregatingAttributes: w.y}
	var err error
	w.bytes, _, err = w.x.ToBytes()
	must(err)
	w.ks, w.tag, w.add = newKSStep(t, 5, "mixed"), newTagStep(t, 4, "mixed"), newAddStep(t, 4, "mixed")
	w.agg, w.arm, w.shuf = newAggStep(t, 4, 3, "mixed"), newArmStep(t, 4, "mixed", true), newShufStep(t, 3, 2, "mixed", "")
	w.ksp, err = w.ks.prove()
	must(err)
	w.tagp, err = w.tag.prove()
	must(err)
	w.aggp = w.agg.prove()
	w.armp, err = w.arm.prove()
	must(err)
	p, err := w.shuf.prove()
	must(err)
	w.shufp = libunlynxshuffle.PublishedShufflingListProof{List: []libunlynxshuffle.PublishedShufflingProof{p, p}}
	w.shufB, err = p.ToBytes()
	must(err)
	return w
}

type c22Op struct {
	name string
	f    func(w *c22World, r *rand.Rand, id int)
}

var c22Ops = []c22Op{
	{"encrypt", func(w *c22World, r *rand.Rand, id int) { libunlynx.EncryptIntVector(w.pk, w.vals) }},
	{"encrypt-rs", func(w *c22World, r *rand.Rand, id int) { libunlynx.EncryptIntVectorGetRs(w.pk, w.vals) }},
	{"null-vector", func(w *c22World, r *rand.Rand, id int) { libunlynx.NullCipherVector(len(w.vals), w.pk) }},
	{"decrypt", func(w *c22World, r *rand.Rand, id int) { libunlynx.DecryptIntVector(w.sk, &w.x) }},
	{"decrypt-neg", func(w *c22World, r *rand.Rand, id int) { libunlynx.DecryptIntVectorWithNeg(w.sk, &w.x) }},
	{"decrypt-zero", func(w *c22World, r *rand.Rand, id int) { libunlynx.DecryptCheckZeroVector(w.sk, &w.x) }},
	{"decrypt-new", func(w *c22World, r *rand.Rand, id int) { // a value nobody has decrypted yet
		v := int64(1000 + r.Intn(1500))
		libunlynx.DecryptInt(w.sk, *libunlynx.EncryptInt(w.pk, v))
		libunlynx.DecryptIntWithNeg(w.sk, *libunlynx.EncryptInt(w.pk, -v/2))
	}},
	{"table", func(w *c22World, r *rand.Rand, id int) {
		libunlynx.CreateDecryptionTable(int64(100+r.Intn(400)), w.pk, w.sk)
	}},
	{"add", func(w *c22World, r *rand.Rand, id int) { libunlynx.NewCipherVector(len(w.x)).Add(w.x, w.y) }},
	{"sub", func(w *c22World, r *rand.Rand, id int) { libunlynx.NewCipherVector(len(w.x)).Sub(w.x, w.y) }},
	{"acum", func(w *c22World, r *rand.Rand, id int) { w.x.Acum(); w.x.Equal(&w.y) }},
	{"scalar", func(w *c22World, r *rand.Rand, id int) {
		libunlynx.NewCipherText().MulCipherTextbyScalar(w.x[0], w.k)
	}},
	{"bytes", func(w *c22World, r *rand.Rand, id int) {
		w.x.ToBytes()
		v := libunlynx.NewCipherVector(0)
		must(v.FromBytes(w.bytes, len(w.x)))
		w.x[0].Serialize()
		b, l, err := libunlynx.ArrayCipherVectorToBytes(w.rows)
		must(err)
		_, err = libunlynx.FromBytesToArrayCipherVector(b, l)
		must(err)
	}},
	{"key-switch", func(w *c22World, r *rand.Rand, id int) { libunlynxkeyswitch.KeySwitchSequence(w.Q, w.rbs, w.k) }},
	{"tag", func(w *c22World, r *rand.Rand, id int) { libunlynxdetertag.DeterministicTagSequence(w.x, w.k, w.s) }},
	{"tag-key", func(w *c22World, r *rand.Rand, id int) {
		libunlynxdetertag.CipherVectorToDeterministicTag(w.tag.bef, w.tag.k, w.tag.s, w.tag.K, id%2 == 0)
	}},
	{"shuffle", func(w *c22World, r *rand.Rand, id int) {
		tab := w.table
		if r.Intn(2) == 0 {
			tab = nil
		}
		libunlynxshuffle.ShuffleSequence(w.rows, suite.Point().Base(), w.pk, tab)
	}},
	{"precompute", func(w *c22World, r *rand.Rand, id int) {
		libunlynxshuffle.CreatePrecomputedRandomize(suite.Point().Base(), w.pk, suite.RandomStream(), 3, 3)
		b, err := libunlynxshuffle.EncodeCipherVectorScalar(w.table)
		must(err)
		_, err = libunlynxshuffle.DecodeCipherVectorScalar(b)
		must(err)
	}},
	{"precompute-file", func(w *c22World, r *rand.Rand, id int) {
		f := filepath.Join(w.dir, fmt.Sprint("c22-table-", r.Intn(2)))
		libunlynxshuffle.PrecomputationWritingForShuffling(true, f, "server", w.s, w.pk, 1)
	}},
	{"prove-ks", func(w *c22World, r *rand.Rand, id int) { w.ks.prove() }},
	{"prove-tag", func(w *c22World, r *rand.Rand, id int) { w.tag.prove() }},
	{"prove-add", func(w *c22World, r *rand.Rand, id int) { w.add.prove() }},
	{"prove-aggregation", func(w *c22World, r *rand.Rand, id int) { w.agg.prove() }},
	{"prove-rekey", func(w *c22World, r *rand.Rand, id int) { w.arm.prove() }},
	{"prove-shuffle", func(w *c22World, r *rand.Rand, id int) { w.shuf.prove() }},
	{"verify-ks", func(w *c22World, r *rand.Rand, id int) {
		libunlynxkeyswitch.KeySwitchListProofVerification(w.ksp, 1)
		w.ksp.ToBytes()
	}},
	{"verify-tag", func(w *c22World, r *rand.Rand, id int) {
		libunlynxdetertag.DeterministicTagCrListProofVerification(w.tagp, 1)
	}},
	{"verify-aggregation", func(w *c22World, r *rand.Rand, id int) {
		libunlynxaggr.AggregationListProofVerification(w.aggp, 1)
		w.aggp.ToBytes()
	}},
	{"verify-rekey", func(w *c22World, r *rand.Rand, id int) { libunlynxaddrm.AddRmListProofVerification(w.armp, 1) }},
	{"verify-shuffle", func(w *c22World, r *rand.Rand, id int) {
		libunlynxshuffle.ShuffleListProofVerification(w.shufp, w.shuf.h, 1)
		var p libunlynxshuffle.PublishedShufflingProof
		must(p.FromBytes(w.shufB))
	}},
	{"response", func(w *c22World, r *rand.Rand, id int) {
		for _, d := range w.resps {
			s, err := libunlynx.EncryptDpClearResponse(d, w.pk, id%2 == 0)
			must(err)
			var o libunlynx.DpResponse
			must(o.FromDpResponseToSend(s))
		}
		_, err := servicesunlynx.EncryptDataToSurvey("dp", "survey", w.resps, w.pk, 2, id%2 == 1)
		must(err)
	}},
	{"groups", func(w *c22World, r *rand.Rand, id int) {
		m := map[libunlynx.GroupingKey]libunlynx.FilteredResponse{}
		for i := 0; i < 3; i++ {
			libunlynx.AddInMap(m, "a", w.added)
			libunlynx.AddInMap(m, libunlynx.GroupingKey(fmt.Sprint(i)), w.added)
		}
		libunlynx.UnKey(libunlynx.Key(w.vals[:2]))
		f := libunlynx.NewFilteredResponse(1, len(w.y))
		f.Add(w.added, w.added)
	}},
	{"noise", func(w *c22World, r *rand.Rand, id int) {
		libunlynxdiffprivacy.GenerateNoiseValuesScale(20, 0, 5, 1, 1, 30)
	}},
	{"random", func(w *c22World, r *rand.Rand, id int) {
		libunlynx.RandomPermutation(9)
		libunlynx.RandomScalarSlice(5)
		libunlynx.SplitScalar(w.k, 3)
		libunlynx.GenKeys(3)
	}},
	{"data", func(w *c22World, r *rand.Rand, id int) {
		d, err := dataunlynx.GenerateData(2, 4, 2, 1, 1, 1, 1, 1, 1, []int64{2, 2}, id%2 == 0)
		must(err)
		dataunlynx.ComputeExpectedResult(d, 2, true)
		dataunlynx.CompareClearResponses(w.resps, w.resps)
		dataunlynx.ClearExpectedResult(w.resps)
		f := filepath.Join(w.dir, fmt.Sprint("c22-data-", id))
		must(dataunlynx.WriteDataToFile(f, w.files))
		_, err = dataunlynx.ReadDataFromFile(f)
		must(err)
		must(os.Remove(f))
	}},
	{"tools", func(w *c22World, r *rand.Rand, id int) {
		libunlynxtools.StringToInt64Array(libunlynxtools.Int64ArrayToString(w.vals))
		libunlynxtools.ConvertMapToData(libunlynxtools.ConvertDataToMap(w.vals, "s", 0), "s", 0)
	}},
}

func c22Library(n, workers, each int, one bool) func(t *T) {
	return func(t *T) {
		t.mute = true
		w := newC22World(t, n)
		var wg sync.WaitGroup
		plan := make([][]int, workers)
		only := t.R.Intn(len(c22Ops))
		for g := range plan {
			for i := 0; i < each; i++ {
				k := t.R.Intn(len(c22Ops))
				if one { // all do the same at the same time, one operation after the other
					k = (only + i) % len(c22Ops)
				}
				plan[g] = append(plan[g], k)
				t.Seen("library_calls", c22Ops[k].name)
				t.Seen("library_calls_together", fmt.Sprint(c22Ops[k].name, "/", c22Ops[plan[0][i]].name))
			}
		}
		rs := make([]*rand.Rand, workers)
		for g := range rs {
			rs[g] = rand.New(rand.NewSource(t.R.Int63()))
		}
		start := make(chan bool)
		for g := 0; g < workers; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				<-start
				for _, k := range plan[g] {
					c22Ops[k].f(w, rs[g], g)
				}
			}(g)
		}
		close(start)
		wg.Wait()
		for g := range plan {
			t.Nontrivial("library %d %v with %v", n, plan[g], plan[0])
		}
		t.Count("library_calls_made", int64(workers*each))
		t.Sample("%d goroutines, %d calls each on the same inputs (vectors of %d)", workers, each, n)
	}
}

// ---- many elements of one input fail at the same time

// badPoint cannot be encoded.
type badPoint struct{ kyber.Point }

func (badPoint) MarshalBinary() ([]byte, error)     { return nil, errors.New("cannot be encoded") }
func (badPoint) MarshalTo(w io.Writer) (int, error) { return 0, errors.New("cannot be encoded") }
func (badPoint) String() string                     { return "bad" }
func (b badPoint) Clone() kyber.Point               { return b }
func (b badPoint) Equal(p kyber.Point) bool         { return false }

// c22Failures decodes and encodes vectors of which many elements are invalid, so that the goroutines that share the work
// all have an error to report.
func c22Failures(n int) func(t *T) {
	return func(t *T) {
		t.mute = true
		sk, pk := newKey()
		_ = sk
		vals := make([]int64, n)
		good := encVec(pk, vals)
		row := func() libunlynx.CipherVector { return libunlynx.CipherVector{good[0], good[1%n]} }
		mat := make([]libunlynx.CipherVector, n)
		for i := range mat {
			mat[i] = row()
		}
		// no point has this encoding
		junk := make([]byte, 32)
		for i := range junk {
			junk[i] = byte(2 + 5*i)
		}
		for suite.Point().UnmarshalBinary(junk) == nil {
			junk[0]++
		}
		spoil := func(b []byte, r *rand.Rand) []byte {
			b = append([]byte{}, b...)
			for i := 0; i+32 <= len(b); i += 32 {
				if r.Intn(2) == 0 {
					copy(b[i:], junk)
				}
			}
			return b
		}
		bad := libunlynx.CipherText{K: badPoint{pk}, C: badPoint{pk}}
		badMat := cloneMat(mat)
		for i := range badMat {
			if t.R.Intn(2) == 0 {
				badMat[i][t.R.Intn(2)] = bad
			}
		}
		flat, lens, err := libunlynx.ArrayCipherVectorToBytes(mat)
		must(err)
		vecB, _, err := good.ToBytes()
		must(err)
		ks := libunlynxkeyswitch.PublishedKSListProof{}
		for i := 0; i < n; i++ {
			ks.List = append(ks.List, libunlynxkeyswitch.PublishedKSProof{Proof: []byte{1}, K: pk, ViB: pk, Ks2: pk, RbNeg: pk, Q: pk})
		}
		ksB, err := ks.ToBytes()
		must(err)
		ag := libunlynxaggr.PublishedAggregationListProof{}
		for i := 0; i < n; i++ {
			ag.List = append(ag.List, libunlynxaggr.PublishedAggregationProof{Data: row(), AggregationResult: good[0]})
		}
		agB, err := ag.ToBytes()
		must(err)
		sh := libunlynxshuffle.PublishedShufflingProof{OriginalList: mat, ShuffledList: mat, G: pk, H: pk}
		shB, err := sh.ToBytes()
		must(err)
		cd := protocolsunlynx.ChildAggregatedDataMessage{}
		for i := 0; i < n; i++ {
			cd.ChildData = append(cd.ChildData, libunlynx.FilteredResponseDet{DetTagGroupBy: libunlynx.GroupingKey(fmt.Sprintf("%08d", i)), Fr: libunlynx.FilteredResponse{GroupByEnc: row(), AggregatingAttributes: row()}})
		}
		cdB, la, lb, lc, err := cd.ToBytes()
		must(err)
		fails := map[string]func(r *rand.Rand) error{
			"matrix-decode": func(r *rand.Rand) error {
				_, err := libunlynx.FromBytesToArrayCipherVector(spoil(flat, r), lens)
				return err
			},
			"matrix-encode": func(*rand.Rand) error { _, _, err := libunlynx.ArrayCipherVectorToBytes(badMat); return err },
			"shuffling-message": func(r *rand.Rand) error {
				return (&protocolsunlynx.ShufflingMessage{}).FromBytes(spoil(flat, r), lens)
			},
			"tagging-message": func(r *rand.Rand) error {
				return (&protocolsunlynx.DeterministicTaggingMessage{}).FromBytes(spoil(vecB, r))
			},
			"tagging-encode": func(*rand.Rand) error {
				m := protocolsunlynx.DeterministicTaggingMessage{}
				for _, r := range badMat {
					m.Data = append(m.Data, r...)
				}
				_, err := m.ToBytes()
				return err
			},
			"aggregation-message": func(r *rand.Rand) error {
				b := append([]byte{}, cdB...)
				for i, size := 0, len(b)/n; i < n; i++ {
					if r.Intn(2) == 0 {
						copy(b[i*size:], junk)
						copy(b[(i+1)*size-4*64-8*r.Intn(2):], junk)
					}
				}
				return (&protocolsunlynx.ChildAggregatedDataMessage{}).FromBytes(b, la, lb, lc)
			},
			"aggregation-encode": func(r *rand.Rand) error {
				m := protocolsunlynx.ChildAggregatedDataMessage{ChildData: append([]libunlynx.FilteredResponseDet{}, cd.ChildData...)}
				for i := range m.ChildData {
					m.ChildData[i].Fr.AggregatingAttributes = badMat[i]
				}
				_, _, _, _, err := m.ToBytes()
				return err
			},
			"ks-proofs-decode": func(r *rand.Rand) error {
				p := libunlynxkeyswitch.PublishedKSListProofBytes{List: append([]libunlynxkeyswitch.PublishedKSProofBytes{}, ksB.List...)}
				for i := range p.List {
					p.List[i].KVibKs2RbNegQ = spoil(p.List[i].KVibKs2RbNegQ, r)
				}
				return (&libunlynxkeyswitch.PublishedKSListProof{}).FromBytes(p)
			},
			"ks-proofs-encode": func(r *rand.Rand) error {
				p := libunlynxkeyswitch.PublishedKSListProof{List: append([]libunlynxkeyswitch.PublishedKSProof{}, ks.List...)}
				for i := range p.List {
					p.List[i].ViB = badPoint{pk}
				}
				_, err := p.ToBytes()
				return err
			},
			"aggregation-proofs-decode": func(r *rand.Rand) error {
				p := libunlynxaggr.PublishedAggregationListProofBytes{List: append([]libunlynxaggr.PublishedAggregationProofBytes{}, agB.List...)}
				for i := range p.List {
					p.List[i].Data = spoil(p.List[i].Data, r)
				}
				return (&libunlynxaggr.PublishedAggregationListProof{}).FromBytes(p)
			},
			"aggregation-proofs-encode": func(r *rand.Rand) error {
				p := libunlynxaggr.PublishedAggregationListProof{List: append([]libunlynxaggr.PublishedAggregationProof{}, ag.List...)}
				for i := range p.List {
					p.List[i].Data = badMat[i]
				}
				_, err := p.ToBytes()
				return err
			},
			"shuffle-proof-decode": func(r *rand.Rand) error {
				p := shB
				a, b := spoil(*shB.OriginalList, r), spoil(*shB.ShuffledList, r)
				p.OriginalList, p.ShuffledList = &a, &b
				return (&libunlynxshuffle.PublishedShufflingProof{}).FromBytes(p)
			},
			"shuffle-proof-encode": func(r *rand.Rand) error {
				p := libunlynxshuffle.PublishedShufflingProof{OriginalList: badMat, ShuffledList: badMat, G: badPoint{pk}, H: badPoint{pk}}
				_, err := p.ToBytes()
				return err
			},
			"shuffle-factors": func(r *rand.Rand) error {
				var all libunlynx.CipherVector
				for _, r := range badMat {
					all = append(all, r...)
				}
				_, err := libunlynxshuffle.CipherVectorComputeE(pk, all)
				return err
			},
			"shuffle-proofs": func(r *rand.Rand) error {
				// each of the list fails
				lists := make([][]libunlynx.CipherVector, 210)
				g := make([]kyber.Point, 210)
				for i := range lists {
					lists[i], g[i] = badMat, pk
				}
				_, err := libunlynxshuffle.ShuffleListProofCreation(lists, lists, g, g, make([][][]kyber.Scalar, 210), make([][]int, 210))
				return err
			},
			"shuffle-verify": func(r *rand.Rand) error {
				p := libunlynxshuffle.PublishedShufflingProof{OriginalList: badMat, ShuffledList: badMat, G: pk, H: pk}
				if libunlynxshuffle.ShuffleProofVerification(p, pk) {
					return nil
				}
				return errors.New("refused")
			},
		}
		var names []string
		for k := range fails {
			names = append(names, k)
		}
		sortStrings(names)
		for _, k := range names {
			r := rand.New(rand.NewSource(t.R.Int63()))
			for i := 0; i < 8; i++ {
				if fails[k](r) == nil {
					t.Count("unexpected_success", 1)
				} else {
					t.Count("failed_calls", 1)
					t.Seen("failing_calls", k)
				}
			}
			t.Nontrivial("failures %d %s", n, k)
		}
	}
}

// ---- surveys at the same time, with as little synchronisation of the
// harness's own as possible between the goroutines

type c22Surveys struct {
	n, surveys, rounds int
	proofs, ws, rude   bool
}

func (c c22Surveys) run(t *T) {
	t.mute = true
	libunlynx.TIMEOUT = 30e9
	cl := getSCluster(c.n, c.ws)
	for round := 0; round < c.rounds; round++ {
		var wg sync.WaitGroup
		answered := make([]bool, c.surveys)
		var list []*survey
		for i := 0; i < c.surveys; i++ {
			sh := randShape(t, surveyShape{proofs: c.proofs})
			sh.neg, sh.names = false, ""
			sh.subs, sh.rows = 2+t.R.Intn(6), 2
			q := sh.query(t.R)
			members := randMembers(t.R, c.n, 1+t.R.Intn(c.n))
			s := cl.newSurvey(q, members, members[t.R.Intn(len(members))], c.ws && i%2 == 0)
			s.subs, s.dup = sh.data(t.R, q, members), sh.dup
			list = append(list, s)
		}
		for i := range list {
			wg.Add(1)
			go func(i int, r *rand.Rand) {
				defer wg.Done()
				s := list[i]
				if s.create() != nil {
					return
				}
				var in sync.WaitGroup
				for _, sub := range s.subs {
					in.Add(1)
					go func(sub submission) {
						defer in.Done()
						s.submit(sub)
					}(sub)
				}
				if c.rude { // requests that nobody expects, at the same time
					for k := 0; k < 4; k++ {
						in.Add(1)
						go func(k int, r *rand.Rand) {
							defer in.Done()
							at := s.members[r.Intn(len(s.members))]
							switch k {
							case 0:
								s.c.ask(at, &servicesunlynx.SurveyResponseQuery{SurveyID: "none"}, nil)
							case 1:
								s.c.ask(at, &servicesunlynx.SurveyResultsQuery{SurveyID: "none", ClientPublic: s.pk}, nil)
							case 2:
								s.c.ask(at, &servicesunlynx.SurveyCreationQuery{Roster: *s.ro, Predicate: "v9"}, nil)
							case 3:
								s.c.ask(at, &servicesunlynx.SurveyResponseQuery{SurveyID: s.id, Responses: []libunlynx.DpResponseToSend{{WhereEnc: map[string][]byte{"w0": {1}}}}}, nil)
							}
						}(k, rand.New(rand.NewSource(r.Int63())))
					}
				}
				in.Wait()
				if c.rude {
					in.Add(1)
					go func() { // again, while it is executed
						defer in.Done()
						s.c.ask(s.entry, &servicesunlynx.SurveyResultsQuery{SurveyID: s.id, ClientPublic: s.pk}, nil)
					}()
				}
				_, err := s.results()
				answered[i] = err == nil
				in.Wait()
			}(i, rand.New(rand.NewSource(t.R.Int63())))
		}
		wg.Wait()
		for i, s := range list {
			t.Count("surveys", 1)
			t.Count("submissions", int64(len(s.subs)))
			if answered[i] {
				t.Count("surveys_answered", 1)
				t.Nontrivial("%d surveys on %d servers, rude %v: %s %v", c.surveys, c.n, c.rude, s.q, s.members)
			} else {
				t.Trivial()
			}
		}
	}
	t.Sample("%d rounds of %d surveys at once on %d servers (proofs %v, websockets %v, unexpected requests %v)", c.rounds, c.surveys, c.n, c.proofs, c.ws, c.rude)
}

// c22Crowd: many small surveys are created and fed at the same time.
func c22Crowd(n, workers, each int) func(t *T) {
	return func(t *T) {
		t.mute = true
		cl := getSCluster(n, false)
		q := &squery{sum: []string{"s0"}}
		var wg sync.WaitGroup
		made := make([]int, workers)
		for g := 0; g < workers; g++ {
			members := randMembers(t.R, n, 1+t.R.Intn(n))
			list := make([]*survey, each)
			for i := range list {
				list[i] = cl.newSurvey(q, members, members[0], false)
			}
			wg.Add(1)
			go func(g int, list []*survey) {
				defer wg.Done()
				for _, s := range list {
					if s.create() != nil {
						continue
					}
					for k := 0; k < 3; k++ {
						if s.submit(submission{server: s.members[k%len(s.members)]}) == nil {
							made[g]++
						}
					}
				}
			}(g, list)
		}
		wg.Wait()
		for g, m := range made {
			t.Count("surveys_fed_in_a_crowd", int64(m))
			t.Nontrivial("crowd %d %d %d", n, g, m)
		}
	}
}

// ---- the other checks' workloads

// quick: how many cases of each kind (prefix of the name) of each check
var c22Borrow = []struct {
	id, prefix string
	quick, all int
}{
	{"C01", "concurrent", 1, 4}, {"C03", "mats", 0, 1}, {"C03", "responses", 1, 1},
	{"C04", "PublishedKSListProof", 1, 1}, {"C04", "PublishedAggregationListProof", 1, 1}, {"C04", "PublishedShufflingProof", 1, 1}, {"C04", "ShufflingMessage", 1, 1}, {"C04", "DeterministicTaggingMessage", 1, 1}, {"C04", "FromBytesToArrayCipherVector", 1, 1}, {"C04", "", 0, 29},
	{"C13", "shuffle", 0, 2}, {"C13", "tag", 1, 1}, {"C13", "ks", 1, 1}, {"C13", "aggregation", 1, 1}, {"C13", "addition", 0, 1}, {"C13", "add", 1, 1}, {"C13", "remove", 0, 1},
	{"C02", "ops", 1, 6}, {"C02", "split", 1, 2}, {"C02", "aggregate", 1, 2}, {"C02", "concurrent", 2, 4},
	{"C05", "run", 1, 6}, {"C05", "concurrent", 1, 3},
	{"C06", "local", 1, 2}, {"C06", "run", 2, 10}, {"C06", "concurrent", 1, 3},
	{"C07", "survey", 1, 5}, {"C07", "concurrent", 1, 3},
	{"C08", "survey", 1, 5}, {"C08", "concurrent", 1, 3},
	{"C09", "ragged", 1, 3}, {"C09", "some", 1, 3}, {"C09", "concurrent", 1, 4},
	{"C10", "proofs", 1, 4}, {"C10", "client", 1, 4}, {"C10", "random", 0, 8},
	{"C11", "", 2, 12},
	{"C12", "chain", 0, 2},
	{"C14", "many", 1, 4}, {"C14", "one", 1, 4},
	{"C15", "insert", 3, 12}, {"C15", "groups", 2, 6}, {"C15", "shuffled", 1, 3}, {"C15", "clear", 1, 3},
	{"C16", "pool", 3, 10}, {"C16", "mixed", 1, 3},
	{"C17", "shuffle", 1, 3}, {"C17", "grid", 0, 1},
	{"C20", "race", 1, 6}, {"C20", "closing", 1, 2}, {"C20", "storm", 0, 2}, {"C20", "early", 1, 4}, {"C20", "victim", 0, 3},
	{"C23", "file", 1, 8}, {"C23", "run", 1, 4},
	{"C24", "concurrent", 0, 2}, {"C24", "survey", 1, 3}, {"C24", "shuffleddt", 1, 2}, {"C24", "aggregation", 1, 2}, {"C24", "store", 1, 1},
}

func c22Cases(tier string, seed int64) []Case {
	var out []Case
	quick := tier != "thorough"
	lib, rounds := 1, 1
	if !quick {
		lib, rounds = 4, 4
	}
	for k := 0; k < lib; k++ {
		for i, n := range []int{3, 40, 130, 1100} {
			each := 40
			if n > 1000 {
				each = 8
			}
			out = append(out, Case{Name: fmt.Sprintf("library/%d-%d", n, k), Cost: 20, MaxCPU: 3000, Procs: 4, Fresh: i == 1, Run: c22Library(n, 6, each, false)})
		}
		for _, n := range []int{2, 5, 12, 230} {
			out = append(out, Case{Name: fmt.Sprintf("failures/%d-%d", n, k), Cost: 20, MaxCPU: 3000, Procs: 4, Run: c22Failures(n)})
		}
		out = append(out, Case{Name: fmt.Sprintf("library-together/%d", k), Cost: 30, MaxCPU: 3000, Procs: 4, Fresh: true, Run: c22Library(20, 5, len(c22Ops), true)})
	}
	for i, c := range []c22Surveys{
		{n: 3, surveys: 5}, {n: 3, surveys: 5, rude: true}, {n: 2, surveys: 6, ws: true}, {n: 4, surveys: 4, rude: true}, {n: 3, surveys: 3, proofs: true}, {n: 1, surveys: 6, rude: true}, {n: 3, surveys: 4, ws: true, rude: true}, {n: 2, surveys: 2, proofs: true, rude: true}, {n: 5, surveys: 8},
	} {
		c.rounds = rounds
		if !c.proofs {
			c.rounds *= 2
		}
		for k := 0; k < (lib+1)/2; k++ {
			out = append(out, Case{Name: fmt.Sprintf("surveys/%d-%d", i, k), Cost: 30 * float64(rounds), MaxCPU: 3000, Procs: 4, Run: c.run})
		}
	}
	for k := 0; k < (lib+1)/2; k++ {
		for n := 1; n <= 3; n++ {
			out = append(out, Case{Name: fmt.Sprintf("crowd/%d-%d", n, k), Cost: 40, MaxCPU: 3000, Procs: 4, Run: c22Crowd(n, 8, 45)})
		}
	}
	for _, b := range c22Borrow {
		var match []Case
		for _, c := range checks[b.id].Cases("quick", seed) {
			if strings.HasPrefix(c.Name, b.prefix) {
				match = append(match, c)
			}
		}
		want := b.quick
		if !quick {
			want = b.all
		}
		for i := 0; i < want && i < len(match); i++ {
			c := match[i*len(match)/want]
			run := c.Run
			c.Name, c.Cost, c.MaxCPU = b.id+"/"+c.Name, c.Cost*6, 3000
			c.Run = func(t *T) {
				t.mute = true // judged by its own check
				run(t)
			}
			out = append(out, c)
		}
	}
	seen := map[string]bool{}
	uniq := out[:0]
	for _, c := range out {
		if !seen[c.Name] {
			seen[c.Name] = true
			uniq = append(uniq, c)
		}
	}
	return uniq
}
