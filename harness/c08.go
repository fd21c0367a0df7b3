package main

import (
	"fmt"
	"sync"

	libunlynxshuffle "github.com/ldsec/unlynx/lib/shuffle"
	protocolsunlynx "github.com/ldsec/unlynx/protocols"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
)

func init() {
	regWrapped("ShufflingPlusDDT", protocolsunlynx.NewShufflingPlusDDTProtocol)
	register(&Check{
		ID:    "C08",
		Rule:  "a case fixes a survey (servers' secrets) and a leading server, learns the map from plaintext to tag from one-row runs (a single row keeps its columns), then shuffles and tags lists of 0-260 rows of 1-130 columns of that domain, with and without precomputed tables, in several runs under message delays; the tag rows of every run are compared, as a multiset of rows, with the rows the map predicts, and the map has to be injective and the same in every run; an evaluation is one protocol run, non-trivial with at least two rows (distinct by configuration and order of messages)",
		Cases: c08Cases,
	})
}

// hopTables makes each server's table for the key that is left when the data
// reach it.
func hopTables(tr *onet.Tree, width int) map[string][]libunlynxshuffle.CipherVectorScalar {
	out := map[string][]libunlynxshuffle.CipherVectorScalar{}
	key := suite.Point().Set(tr.Roster.Aggregate)
	list := tr.List()
	for i := range list {
		n := list[(i+1)%len(list)]
		out[n.ServerIdentity.ID.String()] = libunlynxshuffle.CreatePrecomputedRandomize(suite.Point().Base(), suite.Point().Set(key), suite.RandomStream(), width, 10)
		key = suite.Point().Sub(key, n.ServerIdentity.Public)
	}
	return out
}

func runSDDT(t *T, sv *tagSurvey, m [][]int64, nc netCase, pre string, cl *cluster, tr *onet.Tree) [][]kyber.Point {
	inC := t.encMat(tr.Roster.Aggregate, m)
	snap := matBytes(inC)
	width := 1
	if len(m) > 0 {
		width = len(m[0])
	}
	var tabs map[string][]libunlynxshuffle.CipherVectorScalar
	switch pre {
	case "exact":
		tabs = hopTables(tr, width)
	case "wide":
		tabs = hopTables(tr, 2*width+1)
	}
	pi := cl.create("ShufflingPlusDDT", tr, func(tni *onet.TreeNodeInstance, pi onet.ProtocolInstance) {
		p := pi.(*protocolsunlynx.ShufflingPlusDDTProtocol)
		if tni.IsRoot() {
			p.TargetData = &inC
		}
		sec := sv.secrets[tni.ServerIdentity().ID]
		p.SurveySecretKey = &sec
		p.Proofs = nc.proofs
		p.Precomputed = tabs[tni.ServerIdentity().ID.String()]
	})
	p := pi.(*protocolsunlynx.ShufflingPlusDDTProtocol)
	must(p.Start())
	res := <-p.FeedbackChannel
	out := make([][]kyber.Point, len(res))
	for i := range res {
		for j := range res[i] {
			out[i] = append(out[i], res[i][j].Point)
		}
	}
	t.Check(matBytes(inC) == snap, "input-changed", "the protocol changed its input (%s)", nc)
	return out
}

func tagRows(m [][]kyber.Point) []string {
	out := make([]string, len(m))
	for i := range m {
		for j := range m[i] {
			if m[i][j] == nil {
				out[i] += "missing,"
				continue
			}
			out[i] += fmt.Sprintf("%x,", ps(m[i][j])[:12])
		}
	}
	return out
}

// learn gives the map from plaintext to tag, over the domain.
func learn(t *T, sv *tagSurvey, dom []int64, nc netCase, cl *cluster, tr *onet.Tree) map[int64]kyber.Point {
	nc.proofs = false
	out := map[int64]kyber.Point{}
	row := append([]int64{}, dom...)
	t.R.Shuffle(len(row), func(i, j int) { row[i], row[j] = row[j], row[i] })
	res := runSDDT(t, sv, [][]int64{row}, nc, "", cl, tr)
	if !t.Check(len(res) == 1 && len(res[0]) == len(row), "shape", "one row of %d went in, %d rows came out (%s)", len(row), len(res), nc) {
		return nil
	}
	for i, v := range row {
		sv.note(t, fmt.Sprint(v), res[0][i], v, fmt.Sprintf("one-row run, column %d (%s)", i, nc))
		out[v] = res[0][i]
	}
	return out
}

func judgeSDDT(t *T, f map[int64]kyber.Point, m [][]int64, res [][]kyber.Point, what string) {
	want := make([][]kyber.Point, len(m))
	for i := range m {
		for _, v := range m[i] {
			want[i] = append(want[i], f[v])
		}
	}
	why, ok := sameMultiset(tagRows(res), tagRows(want))
	t.Check(ok, "rows", "%s: %s", what, why)
}

func c08Cases(tier string, seed int64) []Case {
	var out []Case
	ns := []int{1, 2, 3, 5, 8}
	reps := 1
	if tier == "thorough" {
		ns = []int{1, 2, 3, 4, 5, 6, 7, 8}
		reps = 8
	}
	shapes := [][2]int{{1, 3}, {2, 1}, {7, 4}, {30, 2}, {0, 0}, {99, 1}, {101, 2}, {3, 12}, {260, 1}, {2, 130}}
	if tier == "thorough" {
		shapes = append(shapes, [2]int{300, 2}, [2]int{1200, 1}, [2]int{20, 105})
	}
	pres := []string{"", "exact", "wide"}
	k := 0
	for _, n := range ns {
		for rep := 0; rep < reps; rep++ {
			for part := 0; part < 3; part++ {
				n, k0 := n, k
				part := part
				k++
				out = append(out, Case{Name: fmt.Sprintf("survey-%d-%d-%d", n, rep, part), Cost: 0.5 * float64(n), Run: func(t *T) {
					nc := netCase{n: n, kind: treeKinds[k0%len(treeKinds)], perm: k0%2 == 0, sched: "none"}
					cl, _, tr := nc.build(t)
					sv := newTagSurvey(cl)
					var dom []int64
					for v := int64(-3); v < []int64{2, 12, 40}[k0%3]; v++ {
						dom = append(dom, v)
					}
					f := learn(t, sv, dom, nc, cl, tr)
					if f == nil {
						return
					}
					for i, sh := range shapes {
						if i%3 != part {
							continue
						}
						nc.size, nc.sched, nc.proofs = sh[0], schedModes[(i+k0)%len(schedModes)], (i+k0)%3 == 0 && sh[0] > 1 && sh[0] < 40
						pre := pres[(i+k0/2)%3]
						if sh[1] == 0 {
							pre = ""
						}
						m := make([][]int64, sh[0])
						for r := range m {
							for c := 0; c < sh[1]; c++ {
								m[r] = append(m[r], dom[t.R.Intn(len(dom))])
							}
						}
						s := newSched(t.R, nc.sched, nil)
						res := runSDDT(t, sv, m, nc, pre, cl, tr)
						sig := s.done(t)
						judgeSDDT(t, f, m, res, fmt.Sprintf("%v, width %d, table %q", nc, sh[1], pre))
						if sh[0] > 1 {
							t.Nontrivial("%v/%d/%s/%s", nc, sh[1], pre, sig)
						} else {
							t.Trivial()
						}
					}
					// the map is still the same
					learn(t, sv, dom, nc, cl, tr)
					t.Count("distinct_tags", int64(len(sv.plainOf)))
					t.Sample("%v, domain %v, shapes %v", nc, dom, shapes)
				}})
			}
			if n > 2 {
				n := n
				out = append(out, Case{Name: fmt.Sprintf("concurrent-%d-%d", n, rep), Cost: 2, Run: func(t *T) {
					cl := getCluster(n)
					s := newSched(t.R, "jitter", nil)
					used := map[onet.TreeID]bool{}
					var wg sync.WaitGroup
					dom := []int64{0, 1, 2, 3, -1, 50}
					for i := 0; i < 4; i++ {
						nc := netCase{n: n, kind: treeKinds[i], size: []int{3, 50, 1, 17}[i], sched: "jitter"}
						_, tr := cl.distinctTree(nc.kind, t.R, used)
						ft, sv := t.fork(), newTagSurvey(cl)
						wg.Add(1)
						go func() {
							defer wg.Done()
							f := learn(ft, sv, dom, nc, cl, tr)
							m := make([][]int64, nc.size)
							for r := range m {
								m[r] = []int64{dom[ft.R.Intn(6)], dom[ft.R.Intn(6)]}
							}
							judgeSDDT(ft, f, m, runSDDT(ft, sv, m, nc, "", cl, tr), "concurrent "+nc.String())
						}()
					}
					wg.Wait()
					t.Nontrivial("concurrent/%d/%s", n, s.done(t))
				}})
			}
		}
	}
	return out
}
