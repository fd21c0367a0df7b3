package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"

	libunlynx "github.com/ldsec/unlynx/lib"
	protocolsunlynx "github.com/ldsec/unlynx/protocols"
	servicesunlynx "github.com/ldsec/unlynx/services"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
	"go.dedis.ch/protobuf"
)

// The survey harness: real servers running the real service, driven through
// the handlers clients reach (directly, or through the real client library
// over websockets), against an oracle that evaluates the query in the clear.

func init() {
	for _, n := range []string{protocolsunlynx.ShufflingProtocolName, protocolsunlynx.DeterministicTaggingProtocolName, protocolsunlynx.CollectiveAggregationProtocolName, protocolsunlynx.KeySwitchingProtocolName, protocolsunlynx.DROProtocolName} {
		tapProtocol(n)
	}
}

// ---- queries

// pnode is a predicate: a comparison of two parameters, or a combination.
type pnode struct {
	op   string // ==, !=, &&, ||, !
	a, b int    // parameters of a comparison
	l, r *pnode
}

func (p *pnode) String() string {
	switch p.op {
	case "==", "!=":
		return fmt.Sprintf("v%d %s v%d", p.a, p.op, p.b)
	case "!":
		return "!(" + p.l.String() + ")"
	case "const":
		return []string{"1 == 2", "false", "!(1 == 1)", "true", "2 == 2", "(true || false)"}[p.a]
	}
	return "(" + p.l.String() + " " + p.op + " " + p.r.String() + ")"
}

func (p *pnode) eval(v []int64) bool {
	switch p.op {
	case "==":
		return v[p.a] == v[p.b]
	case "!=":
		return v[p.a] != v[p.b]
	case "!":
		return !p.l.eval(v)
	case "const":
		return p.a > 2
	case "&&":
		return p.l.eval(v) && p.r.eval(v)
	}
	return p.l.eval(v) || p.r.eval(v)
}

func randPred(r *rand.Rand, nw, depth int, cross bool) *pnode {
	if depth == 0 || r.Intn(3) == 0 {
		i := r.Intn(nw)
		p := &pnode{op: "==", a: 2 * i, b: 2*i + 1}
		if r.Intn(3) == 0 {
			p.op = "!="
		}
		if cross && r.Intn(3) == 0 {
			p.a, p.b = r.Intn(2*nw), r.Intn(2*nw)
		}
		return p
	}
	switch r.Intn(5) {
	case 0:
		return &pnode{op: "!", l: randPred(r, nw, depth-1, cross)}
	case 1, 2:
		return &pnode{op: "&&", l: randPred(r, nw, depth-1, cross), r: randPred(r, nw, depth-1, cross)}
	}
	return &pnode{op: "||", l: randPred(r, nw, depth-1, cross), r: randPred(r, nw, depth-1, cross)}
}

type squery struct {
	sum, groupBy, where []string
	whereVals           []int64
	pred                *pnode // nil: none
	predText            string // overrides pred's text
	proofs, count       bool
}

func (q *squery) text() string {
	if q.predText != "" {
		return q.predText
	}
	if q.pred == nil {
		return ""
	}
	return q.pred.String()
}

func (q *squery) String() string {
	return fmt.Sprintf("sum %v count %v where %v=%v predicate %q group by %v proofs %v", q.sum, q.count, q.where, q.whereVals, q.text(), q.groupBy, q.proofs)
}

// submission is one data provider's upload to one server.
type submission struct {
	server int
	resps  []libunlynx.DpClearResponse
	by     int // who (for messages)
	reps   int // each response is sent this many times (0: once)
	same   int // sends the very message of submission same-1 (0: none)
}

func (s submission) repetitions() int {
	if s.reps < 1 {
		return 1
	}
	return s.reps
}

// row merges the clear and to-be-encrypted parts of a response, as the query
// names them.
func attr(name string, clear, enc map[string]int64) int64 {
	if v, ok := enc[name]; ok {
		return v
	}
	return clear[name]
}

// answer evaluates the query in the clear: group -> totals.
func (q *squery) answer(subs []submission) map[string][]int64 {
	out := map[string][]int64{}
	for _, s := range subs {
		for rep := 0; rep < len(s.resps)*s.repetitions(); rep++ {
			d := s.resps[rep%len(s.resps)]
			v := make([]int64, 2*len(q.where))
			for i, w := range q.where {
				v[2*i] = q.whereVals[i]
				v[2*i+1] = attr(w, d.WhereClear, d.WhereEnc)
			}
			if q.pred != nil && !q.pred.eval(v) {
				continue
			}
			var g []int64
			for _, name := range q.groupBy {
				g = append(g, attr(name, d.GroupByClear, d.GroupByEnc))
			}
			k := fmt.Sprint(g)
			if out[k] == nil {
				out[k] = make([]int64, len(q.sum))
			}
			for i, name := range q.sum {
				if name == "count" && q.count {
					out[k][i]++
				} else {
					out[k][i] += attr(name, d.AggregatingAttributesClear, d.AggregatingAttributesEnc)
				}
			}
		}
	}
	return out
}

func answerString(a map[string][]int64) string {
	var l []string
	for k, v := range a {
		l = append(l, fmt.Sprint(k, "=", v))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// sresult is one line of a server's answer.
type sresult struct{ group, totals []int64 }

func resultString(rs []sresult) string {
	var l []string
	for _, r := range rs {
		g := r.group
		if len(g) == 0 {
			g = nil
		}
		l = append(l, fmt.Sprint(fmt.Sprint(g), "=", r.totals))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// ---- servers

type scluster struct {
	local    *onet.LocalTest
	servers  []*onet.Server
	services []*servicesunlynx.Service
	ws       bool
}

var sclusters = map[string]*scluster{}

// getSCluster returns n servers running the service, kept for the worker's
// life. ws: over real sockets (only in a worker with a network of its own).
func getSCluster(n int, ws bool) *scluster {
	ws = ws && ownNet
	key := fmt.Sprint(n, ws)
	if sclusters[key] == nil {
		sclusters[key] = newSCluster(n, ws)
	}
	return sclusters[key]
}

// newSCluster returns n new servers.
func newSCluster(n int, ws bool) *scluster {
	ws = ws && ownNet
	c := &scluster{ws: ws}
	if ws {
		c.local = onet.NewTCPTest(suite)
	} else {
		c.local = onet.NewLocalTest(suite)
	}
	c.local.Check = onet.CheckNone
	c.servers = c.local.GenServers(n)
	connectAll(c.servers)
	for _, s := range c.local.GetServices(c.servers, onet.ServiceFactory.ServiceID(servicesunlynx.ServiceName)) {
		c.services = append(c.services, s.(*servicesunlynx.Service))
	}
	return c
}

func (c *scluster) roster(members []int) *onet.Roster {
	return (&cluster{local: c.local, servers: pickServers(c.servers, members)}).roster(nil)
}

func pickServers(s []*onet.Server, idx []int) []*onet.Server {
	var out []*onet.Server
	for _, i := range idx {
		out = append(out, s[i])
	}
	return out
}

func (c *scluster) secret(members []int) kyber.Scalar {
	return (&cluster{local: c.local, servers: pickServers(c.servers, members)}).secret()
}

// ask sends one request to a server's client handler, as a websocket would.
func (c *scluster) ask(server int, req, resp interface{}) error {
	buf, err := protobuf.Encode(req)
	if err != nil {
		return err
	}
	name := strings.Split(fmt.Sprintf("%T", req), ".")
	return c.askRaw(server, name[len(name)-1], buf, resp)
}

func (c *scluster) askRaw(server int, path string, buf []byte, resp interface{}) error {
	out, _, err := c.services[server].ProcessClientRequest(nil, path, buf)
	if err != nil {
		return err
	}
	if resp == nil {
		return nil
	}
	return protobuf.DecodeWithConstructors(out, resp, protobufConstructors())
}

// survey is one survey of one querier.
type survey struct {
	c       *scluster
	q       *squery
	members []int // servers of the roster, in order
	ro      *onet.Roster
	entry   int // server asked by the querier
	sk      kyber.Scalar
	pk      kyber.Point
	api     *servicesunlynx.API
	useAPI  bool
	id      servicesunlynx.SurveyID
	subs    []submission
	reps    int
	dup     bool // some submissions are the same ciphertexts
	mu      sync.Mutex
	sent    map[int]*servicesunlynx.SurveyResponseQuery
}

func (c *scluster) newSurvey(q *squery, members []int, entry int, useAPI bool) *survey {
	s := &survey{c: c, q: q, members: members, ro: c.roster(members), entry: entry, useAPI: useAPI && c.ws}
	s.sk, s.pk = newKey()
	if s.useAPI {
		s.api = servicesunlynx.NewUnLynxClient(c.servers[entry].ServerIdentity, "q")
	}
	return s
}

// encWhere encrypts the query's where values under the roster's key.
func (s *survey) encWhere() []libunlynx.WhereQueryAttribute {
	var w []libunlynx.WhereQueryAttribute
	for i, n := range s.q.where {
		w = append(w, libunlynx.WhereQueryAttribute{Name: n, Value: *libunlynx.EncryptInt(s.ro.Aggregate, s.q.whereVals[i])})
	}
	return w
}

func (s *survey) creation() *servicesunlynx.SurveyCreationQuery {
	return &servicesunlynx.SurveyCreationQuery{Roster: *s.ro, MapDPs: s.mapDPs(), Proofs: s.q.proofs, Sum: s.q.sum, Count: s.q.count, Where: s.encWhere(), Predicate: s.q.text(), GroupBy: s.q.groupBy, ClientPubKey: s.pk}
}

// mapDPs announces the planned submissions.
func (s *survey) mapDPs() map[string]int64 {
	m := map[string]int64{}
	for _, i := range s.members {
		n := int64(0)
		for _, sub := range s.subs {
			if sub.server == i {
				n++
			}
		}
		m[s.c.servers[i].ServerIdentity.String()] = n
	}
	return m
}

func (s *survey) create() error {
	if s.useAPI {
		id, err := s.api.SendSurveyCreationQuery(s.ro, "", nil, s.mapDPs(), s.q.proofs, false, s.q.sum, s.q.count, s.encWhere(), s.q.text(), s.q.groupBy)
		if err != nil {
			return err
		}
		s.id = *id
		return nil
	}
	var st servicesunlynx.ServiceState
	if err := s.c.ask(s.entry, s.creation(), &st); err != nil {
		return err
	}
	s.id = st.SurveyID
	return nil
}

func (s *survey) submit(sub submission) error {
	if s.useAPI {
		return servicesunlynx.NewUnLynxClient(s.c.servers[sub.server].ServerIdentity, fmt.Sprint("dp", sub.by)).SendSurveyResponseQuery(s.id, sub.resps, s.ro.Aggregate, sub.repetitions(), s.q.count)
	}
	key := sub.same
	if key == 0 {
		key = sub.by + 1
	}
	s.mu.Lock()
	m := s.sent[key]
	if m == nil {
		var err error
		m, err = servicesunlynx.EncryptDataToSurvey(fmt.Sprint("dp", sub.by), s.id, sub.resps, s.ro.Aggregate, sub.repetitions(), s.q.count)
		if err != nil {
			s.mu.Unlock()
			return err
		}
		if sub.same != 0 || s.dup {
			if s.sent == nil {
				s.sent = map[int]*servicesunlynx.SurveyResponseQuery{}
			}
			s.sent[key] = m
		}
	}
	s.mu.Unlock()
	return s.c.ask(sub.server, m, &servicesunlynx.ServiceState{})
}

func (s *survey) results() ([]sresult, error) {
	var out []sresult
	if s.useAPI {
		g, a, err := s.api.SendSurveyResultsQuery(s.id)
		if err != nil {
			return nil, err
		}
		for i := range *g {
			out = append(out, sresult{(*g)[i], (*a)[i]})
		}
		return out, nil
	}
	var res servicesunlynx.ServiceResult
	if err := s.c.ask(s.entry, &servicesunlynx.SurveyResultsQuery{SurveyID: s.id, ClientPublic: s.pk}, &res); err != nil {
		return nil, err
	}
	for _, r := range res.Results {
		out = append(out, sresult{openVec(s.sk, r.GroupByEnc), openVec(s.sk, r.AggregatingAttributes)})
	}
	return out, nil
}

// ---- data

// encMode says which attributes a data provider encrypts.
var encModes = []string{"enc", "clear", "mixed", "groupclear", "sumclear"}

func randResponse(r *rand.Rand, q *squery, mode string, groups, vals int64, neg bool) libunlynx.DpClearResponse {
	d := libunlynx.DpClearResponse{
		GroupByClear: map[string]int64{}, GroupByEnc: map[string]int64{},
		WhereClear: map[string]int64{}, WhereEnc: map[string]int64{},
		AggregatingAttributesClear: map[string]int64{}, AggregatingAttributesEnc: map[string]int64{},
	}
	put := func(kind int, name string, v int64, clear, enc map[string]int64) {
		toClear := false
		switch mode {
		case "clear":
			toClear = true
		case "mixed":
			toClear = r.Intn(2) == 0
		case "groupclear":
			toClear = kind == 0
		case "sumclear":
			toClear = kind == 2
		}
		if toClear {
			clear[name] = v
		} else {
			enc[name] = v
		}
	}
	for _, g := range q.groupBy {
		put(0, g, r.Int63n(groups), d.GroupByClear, d.GroupByEnc)
	}
	for _, w := range q.where {
		put(1, w, r.Int63n(3), d.WhereClear, d.WhereEnc)
	}
	for _, s := range q.sum {
		if s == "count" && q.count {
			continue
		}
		v := r.Int63n(vals)
		if neg && r.Intn(3) == 0 {
			v = -v
		}
		put(2, s, v, d.AggregatingAttributesClear, d.AggregatingAttributesEnc)
	}
	return d
}

type surveyShape struct {
	sums, where, groups int
	count, pred, cross  bool
	proofs              bool
	mode                string // encMode, or "per-dp", "per-row"
	rows                int    // rows per submission, at most
	subs                int    // submissions
	neg                 bool
	one                 bool // all data at one server
	domain              int64
	names               string // "", odd
	dup                 bool   // some submissions are the very ciphertexts of others
}

func (sh surveyShape) String() string {
	return fmt.Sprintf("sums %d where %d groups %d count %v pred %v cross %v proofs %v mode %s rows %d subs %d neg %v one %v dom %d names %q dup %v", sh.sums, sh.where, sh.groups, sh.count, sh.pred, sh.cross, sh.proofs, sh.mode, sh.rows, sh.subs, sh.neg, sh.one, sh.domain, sh.names, sh.dup)
}

func (sh surveyShape) query(r *rand.Rand) *squery {
	q := &squery{proofs: sh.proofs, count: sh.count}
	name := func(p string, i int) string {
		if sh.names == "odd" {
			return []string{"a b", "é", "", "s0", "g0", "w0", "count2", "v0", "==", "a"}[(i*3+len(p)*2+int(p[0]))%10] + p + strings.Repeat("x", i)
		}
		return fmt.Sprint(p, i)
	}
	for i := 0; i < sh.sums; i++ {
		q.sum = append(q.sum, name("s", i))
	}
	if sh.count {
		k := 0
		if len(q.sum) > 0 {
			k = r.Intn(len(q.sum) + 1)
		}
		q.sum = append(q.sum[:k], append([]string{"count"}, q.sum[k:]...)...)
	}
	for i := 0; i < sh.where; i++ {
		q.where = append(q.where, name("w", i))
		q.whereVals = append(q.whereVals, r.Int63n(3))
	}
	for i := 0; i < sh.groups; i++ {
		q.groupBy = append(q.groupBy, name("g", i))
	}
	if sh.pred && sh.where > 0 {
		q.pred = randPred(r, sh.where, 1+r.Intn(3), sh.cross)
	} else if sh.pred && r.Intn(2) == 0 {
		q.pred = &pnode{op: "const", a: r.Intn(6)}
	}
	return q
}

func (sh surveyShape) data(r *rand.Rand, q *squery, members []int) []submission {
	var subs []submission
	only := members[r.Intn(len(members))]
	dom := sh.domain
	if dom == 0 {
		dom = 3
	}
	for i := 0; i < sh.subs; i++ {
		s := submission{server: members[r.Intn(len(members))], by: i}
		if sh.one {
			s.server = only
		}
		if r.Intn(5) == 0 {
			s.reps = 1 + r.Intn(3)
		}
		dpMode := encModes[r.Intn(len(encModes))]
		n := 1
		if sh.rows > 1 {
			n = 1 + r.Intn(sh.rows)
		} else if sh.rows == 0 {
			n = 0
		}
		for k := 0; k < n; k++ {
			m := sh.mode
			switch m {
			case "per-dp":
				m = dpMode
			case "per-row":
				m = encModes[r.Intn(len(encModes))]
			}
			s.resps = append(s.resps, randResponse(r, q, m, dom, 20, sh.neg))
		}
		if sh.dup && i > 0 && r.Intn(2) == 0 {
			o := subs[r.Intn(i)]
			s.resps, s.reps, s.same = o.resps, o.reps, o.same
			if s.same == 0 {
				s.same = o.by + 1
			}
		}
		subs = append(subs, s)
	}
	return subs
}

// judge compares an answer with the oracle's.
func (s *survey) judge(t *T, key string, rs []sresult, subs []submission) bool {
	want := answerString(s.q.answer(subs))
	got := resultString(rs)
	for _, r := range rs {
		if !t.Check(len(r.group) == len(s.q.groupBy) && len(r.totals) == len(s.q.sum), key, "an answer line has %d groups and %d totals (%s)", len(r.group), len(r.totals), s.q) {
			return false
		}
	}
	return t.Check(got == want, key, "the answer is\n  %s\nthe query in the clear gives\n  %s\n(%s; %d submissions, roster %v, entry %d)\n%s", got, want, s.q, len(subs), s.members, s.entry, subsString(subs))
}

func subsString(subs []submission) string {
	s := ""
	for _, x := range subs {
		s += fmt.Sprintf("  to %d (%d times): %v\n", x.server, x.repetitions(), x.resps)
	}
	return trim(s, 3000)
}

// run does a whole survey; par: the data providers submit at the same time.
func (s *survey) run(t *T, key string, par bool) bool {
	if err := s.create(); !t.Check(err == nil, key, "creation refused: %v (%s)", err, s.q) {
		return false
	}
	if par {
		var wg sync.WaitGroup
		errs := make([]error, len(s.subs))
		for i := range s.subs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				errs[i] = s.submit(s.subs[i])
			}(i)
		}
		wg.Wait()
		for i, err := range errs {
			if !t.Check(err == nil, key, "submission %d refused: %v (%s)", i, err, s.q) {
				return false
			}
		}
	} else {
		for i := range s.subs {
			err := s.submit(s.subs[i])
			if !t.Check(err == nil, key, "submission %d refused: %v (%s)", i, err, s.q) {
				return false
			}
		}
	}
	rs, err := s.results()
	if !t.Check(err == nil, key, "results query failed: %v (%s)", err, s.q) {
		return false
	}
	t.Count("surveys", 1)
	t.Count("submissions", int64(len(s.subs)))
	rows := 0
	for _, x := range s.subs {
		rows += len(x.resps)
	}
	t.Count("responses", int64(rows))
	t.Count("answer_lines", int64(len(rs)))
	return s.judge(t, key, rs, s.subs)
}

// randMembers picks a roster of k servers in random order.
func randMembers(r *rand.Rand, n, k int) []int { return r.Perm(n)[:k] }
