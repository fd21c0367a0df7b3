package main

import (
	"fmt"
	"math/rand"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	libunlynx "github.com/ldsec/unlynx/lib"
	servicesunlynx "github.com/ldsec/unlynx/services"
	"go.dedis.ch/onet/v3"
	"go.dedis.ch/onet/v3/network"
	"go.dedis.ch/protobuf"
)

func init() {
	register(&Check{
		ID:          "C20",
		NetNS:       true,
		Rule:        "a case sends bad requests (invalid predicates, rosters, keys, where values, ciphertexts; unknown, repeated and late requests; messages reserved to servers, from clients and malformed or repeated from servers; mutated encodings) to real servers, alone and between the steps of other surveys; each must come back with an error (or, where it is harmless, be accepted), no server may crash or block, and the surveys around it must still be answered exactly; an evaluation is one bad request answered, non-trivial when it is distinct by kind and content",
		Assumptions: []string{"hostile parties are clients; servers follow the protocol", "a request sent in the middle of a survey of which the sender knows the identifier"},
		Cases:       c20Cases,
	})
}

// fault is one bad request.
type fault struct {
	kind   string
	text   string // content, for the record
	refuse bool   // an error has to come back
	do     func() error
}

var badPredicates = []string{
	"v0 ==", "== v1", "v0 = v1", "v0 == v1 &&", "(v0 == v1", "v0 == v1)", "v0 v1", "&&", "||", "!", "()", " ", "v0", "v1", "1", "0", "1 + 2", "\"true\"", "'x'", "v0 + v1",
	"v0 == v99", "v0 == w", "v2 == v3", "v0 == v1 && v4 == v5", "v0 == v1 || x", "foo(v0)", "foo", "v0.Foo", "v0.Foo()", "v0 == v1 ? v0 : v1", "v0 == v1 || v0", "v0 == v1 && v1", "v0 != v1 || 1",
	"v0 == v1 && (v0 + 1)", "v0 =~ '('", "v0 - v1", "v0 == v1 && -v0", "v0 ** v1", "v0 << 2", "[v0", "[v0]", "{v0 == v1}", "v0 == v1;", "true && 1", "!v0", "~v0", "-v0", "v0 ?? v1", "v0 === v1", "v0 == v1 \x00", "\xff\xfe", "v00 == v1", "v-1 == v1", "V0 == v1",
}

func longPredicates() []string {
	return []string{
		strings.Repeat("(", 30000) + "v0 == v9" + strings.Repeat(")", 30000),
		strings.Repeat("v0 == v1 && ", 5000),
		strings.Repeat("(", 3000000) + "v0 == v1" + strings.Repeat(")", 3000000),
		strings.Repeat("(", 3000000),
		strings.Repeat("!", 3000000) + "(v0 == v1",
		strings.Repeat("v0 == v1 && ", 300000),
	}
}

// smallSurvey is a plain survey with one where attribute.
func smallSurvey(cl *scluster, r *rand.Rand, members []int, entry int, ws bool) *survey {
	sh := surveyShape{sums: 1 + r.Intn(2), where: 1, groups: 1, pred: true, mode: "per-dp", rows: 2, subs: 1 + r.Intn(4), domain: 3, count: r.Intn(2) == 0}
	q := sh.query(r)
	s := cl.newSurvey(q, members, entry, ws)
	s.subs = sh.data(r, q, members)
	return s
}

// send delivers a request to a server's client handler, over a websocket if
// the cluster has them.
func (c *scluster) send(server int, path string, buf []byte) error {
	if c.ws {
		_, err := onet.NewClient(suite, servicesunlynx.ServiceName).Send(c.servers[server].ServerIdentity, path, buf)
		return err
	}
	return c.askRaw(server, path, buf, nil)
}

func (c *scluster) sendMsg(server int, req interface{}) error {
	buf, err := protobuf.Encode(req)
	if err != nil {
		return fmt.Errorf("cannot even be encoded: %v", err)
	}
	name := strings.Split(fmt.Sprintf("%T", req), ".")
	return c.send(server, name[len(name)-1], buf)
}

// creationFaults: bad survey creations, aimed at server.
func creationFaults(cl *scluster, r *rand.Rand, server int, long bool) []fault {
	n := len(cl.servers)
	base := func() *servicesunlynx.SurveyCreationQuery {
		members := r.Perm(n)
		return smallSurvey(cl, r, members, server, false).creation()
	}
	var out []fault
	add := func(kind, text string, refuse bool, f func(q *servicesunlynx.SurveyCreationQuery)) {
		q := base()
		f(q)
		out = append(out, fault{"creation/" + kind, text, refuse, func() error { return cl.sendMsg(server, q) }})
	}
	preds := badPredicates
	if long {
		preds = longPredicates()
	}
	for _, p := range preds {
		p := p
		add("predicate", trim(p, 60), true, func(q *servicesunlynx.SurveyCreationQuery) { q.Predicate = p })
	}
	if long {
		return out
	}
	add("predicate-without-where", "", true, func(q *servicesunlynx.SurveyCreationQuery) { q.Where = nil; q.Predicate = "v0 == v1" })
	add("roster", "empty", true, func(q *servicesunlynx.SurveyCreationQuery) { q.Roster = onet.Roster{} })
	add("roster", "no aggregate", true, func(q *servicesunlynx.SurveyCreationQuery) { q.Roster.Aggregate = nil })
	add("roster", "no servers", true, func(q *servicesunlynx.SurveyCreationQuery) { q.Roster.List = nil })
	add("roster", "server without a key", true, func(q *servicesunlynx.SurveyCreationQuery) {
		l := append([]*network.ServerIdentity{}, q.Roster.List...)
		cpy := *l[0]
		cpy.Public = nil
		l[0] = &cpy
		q.Roster.List = l
	})
	if n > 1 {
		add("roster", "without the server itself", true, func(q *servicesunlynx.SurveyCreationQuery) {
			var l []*network.ServerIdentity
			for i, s := range cl.servers {
				if i != server {
					l = append(l, s.ServerIdentity)
				}
			}
			q.Roster = *onet.NewRoster(l)
		})
	}
	add("roster", "server twice", true, func(q *servicesunlynx.SurveyCreationQuery) {
		q.Roster = *onet.NewRoster(append(append([]*network.ServerIdentity{}, q.Roster.List...), q.Roster.List[0]))
	})
	add("where", "no value", true, func(q *servicesunlynx.SurveyCreationQuery) {
		q.Where = []libunlynx.WhereQueryAttribute{{Name: "w0"}}
	})
	add("where", "half a value", true, func(q *servicesunlynx.SurveyCreationQuery) {
		q.Where = []libunlynx.WhereQueryAttribute{{Name: "w0", Value: libunlynx.CipherText{K: suite.Point().Base()}}}
	})
	add("intra", "posing as a server", true, func(q *servicesunlynx.SurveyCreationQuery) {
		q.IntraMessage = true
		q.SurveyID = servicesunlynx.SurveyID(fmt.Sprint("x", r.Int()))
		q.Source = cl.servers[0].ServerIdentity
	})
	add("intra", "posing as a server, no source", true, func(q *servicesunlynx.SurveyCreationQuery) {
		q.IntraMessage = true
		q.SurveyID = servicesunlynx.SurveyID(fmt.Sprint("y", r.Int()))
	})
	add("odd", "nothing to sum", false, func(q *servicesunlynx.SurveyCreationQuery) { q.Sum = nil })
	add("odd", "no announced providers", false, func(q *servicesunlynx.SurveyCreationQuery) { q.MapDPs = nil })
	add("odd", "negative number of providers", false, func(q *servicesunlynx.SurveyCreationQuery) {
		for k := range q.MapDPs {
			q.MapDPs[k] = -5
		}
	})
	out = append(out,
		fault{"unknown-path", "", true, func() error { return cl.send(server, "NoSuchQuery", []byte{1, 2, 3}) }},
		fault{"unknown-path", "empty", true, func() error { return cl.send(server, "", nil) }})
	return out
}

// responseFaults: bad submissions; id may be that of a living survey.
func responseFaults(cl *scluster, r *rand.Rand, server int, victim *survey) []fault {
	var out []fault
	id := servicesunlynx.SurveyID(fmt.Sprint("no-such-survey-", r.Int()))
	known := victim != nil
	if known {
		id = victim.id
	}
	pub := suite.Point().Base()
	resp := func() *servicesunlynx.SurveyResponseQuery {
		q := &squery{sum: []string{"s0"}, groupBy: []string{"g0"}, where: []string{"w0"}}
		var d []libunlynx.DpClearResponse
		for i := 0; i < 3; i++ {
			d = append(d, randResponse(r, q, "enc", 3, 20, false))
		}
		m, err := servicesunlynx.EncryptDataToSurvey("bad", id, d, pub, 1, true)
		must(err)
		return m
	}
	add := func(kind, text string, f func(m *servicesunlynx.SurveyResponseQuery)) {
		m := resp()
		f(m)
		out = append(out, fault{"response/" + kind, fmt.Sprint(text, " known survey ", known), true, func() error { return cl.sendMsg(server, m) }})
	}
	if !known {
		add("unknown-survey", "", func(m *servicesunlynx.SurveyResponseQuery) {})
		add("unknown-survey", "no responses", func(m *servicesunlynx.SurveyResponseQuery) { m.Responses = nil })
		add("unknown-survey", "empty id", func(m *servicesunlynx.SurveyResponseQuery) { m.SurveyID = "" })
		add("unknown-survey", "nothing", func(m *servicesunlynx.SurveyResponseQuery) { *m = servicesunlynx.SurveyResponseQuery{} })
	}
	junk := func(n int) []byte {
		b := make([]byte, n)
		r.Read(b)
		return b
	}
	bads := map[string]func(v []byte) []byte{
		"cut":      func(v []byte) []byte { return v[:len(v)-1-r.Intn(len(v)-1)] },
		"half":     func(v []byte) []byte { return v[:len(v)/2] },
		"empty":    func(v []byte) []byte { return []byte{} },
		"short":    func(v []byte) []byte { return junk(1 + r.Intn(10)) },
		"no-point": func(v []byte) []byte { return notPoints(r, len(v)) },
	}
	var names []string
	for k := range bads {
		names = append(names, k)
	}
	sortStrings(names)
	for _, name := range names {
		f := bads[name]
		for part := 0; part < 3; part++ {
			part := part
			add("ciphertext", fmt.Sprint(name, " in part ", part), func(m *servicesunlynx.SurveyResponseQuery) {
				d := m.Responses[len(m.Responses)-1]
				mp := []map[string][]byte{d.AggregatingAttributesEnc, d.GroupByEnc, d.WhereEnc}[part]
				for k, v := range mp {
					mp[k] = f(append([]byte{}, v...))
				}
			})
		}
	}
	return out
}

// notPoints returns n bytes whose 32-byte pieces are no group elements.
func notPoints(r *rand.Rand, n int) []byte {
	var out []byte
	for len(out) < n {
		b := make([]byte, 32)
		r.Read(b)
		if suite.Point().UnmarshalBinary(b) != nil {
			out = append(out, b...)
		}
	}
	return out[:n]
}

// resultFaults: bad results queries; victim, if any, is a living survey.
func resultFaults(cl *scluster, r *rand.Rand, server int, victim *survey) []fault {
	var out []fault
	_, pk := newKey()
	id := servicesunlynx.SurveyID(fmt.Sprint("no-such-survey-", r.Int()))
	if victim == nil {
		out = append(out,
			fault{"results/unknown-survey", "", true, func() error {
				return cl.sendMsg(server, &servicesunlynx.SurveyResultsQuery{SurveyID: id, ClientPublic: pk})
			}},
			fault{"results/unknown-survey", "empty", true, func() error {
				return cl.sendMsg(server, &servicesunlynx.SurveyResultsQuery{ClientPublic: pk})
			}})
	} else {
		id = victim.id
	}
	out = append(out,
		fault{"results/no-key", fmt.Sprint("known survey ", victim != nil), true, func() error {
			return cl.sendMsg(server, &servicesunlynx.SurveyResultsQuery{SurveyID: id})
		}},
		fault{"results/intra", fmt.Sprint("known survey ", victim != nil), true, func() error {
			return cl.sendMsg(server, &servicesunlynx.SurveyResultsQuery{SurveyID: id, ClientPublic: pk, IntraMessage: true})
		}},
		fault{"intra/ddt-finished", fmt.Sprint("known survey ", victim != nil), true, func() error {
			return cl.sendMsg(server, &servicesunlynx.DDTfinished{SurveyID: id})
		}},
		fault{"intra/broadcast-finished", fmt.Sprint("known survey ", victim != nil), true, func() error {
			return cl.sendMsg(server, &servicesunlynx.QueryBroadcastFinished{SurveyID: id})
		}})
	if victim != nil {
		q := victim.creation()
		q.SurveyID, q.IntraMessage, q.Source = id, true, cl.servers[server].ServerIdentity
		out = append(out, fault{"creation/intra", "over a living survey", true, func() error { return cl.sendMsg(server, q) }})
	}
	return out
}

// byteFaults: mutated encodings of good requests and noise.
func byteFaults(cl *scluster, r *rand.Rand, server, n int) []fault {
	var out []fault
	_, pk := newKey()
	for i := 0; i < n; i++ {
		s := smallSurvey(cl, r, r.Perm(len(cl.servers)), server, false)
		s.id = "no-such-survey"
		var msg interface{}
		path := ""
		switch r.Intn(3) {
		case 0:
			// alone in the roster: no other server can become unreachable
			q := cl.newSurvey(s.q, []int{server}, server, false).creation()
			q.MapDPs = nil
			msg, path = q, "SurveyCreationQuery"
		case 1:
			m, err := servicesunlynx.EncryptDataToSurvey("x", s.id, []libunlynx.DpClearResponse{randResponse(r, s.q, "mixed", 3, 9, false)}, pk, 1, true)
			must(err)
			msg, path = m, "SurveyResponseQuery"
		default:
			msg, path = &servicesunlynx.SurveyResultsQuery{SurveyID: s.id, ClientPublic: pk}, "SurveyResultsQuery"
		}
		buf, err := protobuf.Encode(msg)
		must(err)
		how := ""
		switch r.Intn(6) {
		case 0:
			buf, how = buf[:r.Intn(len(buf))], "cut"
		case 1:
			k := 1 + r.Intn(4)
			for j := 0; j < k; j++ {
				buf[r.Intn(len(buf))] ^= 1 << uint(r.Intn(8))
			}
			how = "flipped"
		case 2:
			p := r.Intn(len(buf))
			buf, how = append(append(append([]byte{}, buf[:p]...), buf[p+r.Intn(len(buf)-p):]...), buf[:r.Intn(len(buf))]...), "spliced"
		case 3:
			buf = make([]byte, r.Intn(200))
			r.Read(buf)
			how = "noise"
		case 4:
			for j := 0; j < 8; j++ {
				buf[r.Intn(minInt(len(buf), 40))] = byte(r.Intn(256))
			}
			how = "head"
		case 5:
			p := r.Intn(len(buf))
			for j := p; j < len(buf) && j < p+8; j++ {
				buf[j] = 0xff
			}
			how = "ff"
		}
		out = append(out, fault{"bytes/" + path + "/" + how, string(buf), false, func() error { return cl.send(server, path, buf) }})
	}
	return out
}

type c20Case struct {
	n     int
	ws    bool
	what  string
	count int
}

func (c c20Case) inject(t *T, f fault) {
	if os.Getenv("VERIF_DBG") != "" {
		fmt.Fprintln(os.Stderr, "FAULT", f.kind, f.text)
	}
	err := f.do()
	if f.refuse {
		t.Check(err != nil, "accepted-"+f.kind, "no error for: %s (%s)", f.kind, f.text)
	}
	if err != nil {
		t.Count("requests_refused", 1)
	} else {
		t.Count("harmless_requests_accepted", 1)
	}
	t.Seen("kinds", f.kind)
	t.Nontrivial("%s %s", f.kind, f.text)
}

// good runs an ordinary survey, which has to come out exactly.
func (c c20Case) good(t *T, cl *scluster, entry int) bool {
	s := smallSurvey(cl, t.R, t.R.Perm(len(cl.servers)), entry, t.R.Intn(2) == 0)
	t.Count("surveys_after_faults", 1)
	return s.run(t, "survey-after-fault", false)
}

func (c c20Case) run(t *T) {
	libunlynx.TIMEOUT = 30 * time.Second
	if c.what == "lost" {
		c.lost(t)
		return
	}
	cl := getSCluster(c.n, c.ws)
	server := t.R.Intn(c.n)
	switch c.what {
	case "creation", "long":
		for i, f := range creationFaults(cl, t.R, server, c.what == "long") {
			c.inject(t, f)
			if i%6 == 5 && !c.good(t, cl, server) {
				return
			}
		}
		c.good(t, cl, server)
	case "peer":
		c.peer(t, cl, server)
	case "unreachable": // the only wait for another server that has a time limit
		libunlynx.TIMEOUT = 12 * time.Second
		q := smallSurvey(cl, t.R, t.R.Perm(c.n), server, false).creation()
		_, pk := newKey()
		addr := network.NewAddress(network.Local, "127.0.0.1:19")
		if cl.ws {
			addr = network.NewAddress(network.PlainTCP, "127.0.0.1:19")
		}
		q.Roster = *onet.NewRoster(append(append([]*network.ServerIdentity{}, q.Roster.List...), network.NewServerIdentity(pk, addr)))
		c.inject(t, fault{"creation/unreachable-server", fmt.Sprint(c.n, c.ws), true, func() error { return cl.sendMsg(server, q) }})
		libunlynx.TIMEOUT = 30 * time.Second
		c.good(t, cl, server)
	case "idle": // no survey alive
		fs := append(responseFaults(cl, t.R, server, nil), resultFaults(cl, t.R, server, nil)...)
		for i, f := range fs {
			c.inject(t, f)
			if i%8 == 7 && !c.good(t, cl, server) {
				return
			}
		}
		c.good(t, cl, server)
	case "bytes":
		for i, f := range byteFaults(cl, t.R, server, c.count) {
			c.inject(t, f)
			if i%40 == 39 && !c.good(t, cl, server) {
				return
			}
		}
		c.good(t, cl, server)
	case "victim": // between the steps of a living survey
		for round := 0; round < c.count; round++ {
			s := smallSurvey(cl, t.R, t.R.Perm(c.n), server, t.R.Intn(2) == 0)
			must(s.create())
			faults := append(responseFaults(cl, t.R, server, s), resultFaults(cl, t.R, server, s)...)
			faults = append(faults, creationFaults(cl, t.R, server, false)...)
			t.R.Shuffle(len(faults), func(i, j int) { faults[i], faults[j] = faults[j], faults[i] })
			k := 0
			some := func(n int) {
				for ; n > 0 && k < len(faults); n-- {
					c.inject(t, faults[k])
					k++
				}
			}
			some(6)
			for i := range s.subs {
				must(s.submit(s.subs[i]))
				some(4)
			}
			some(len(faults))
			rs, err := s.results()
			if !t.Check(err == nil, "survey-with-faults", "results query failed: %v", err) || !s.judge(t, "survey-with-faults", rs, s.subs) {
				return
			}
			t.Count("surveys_with_faults_between_their_steps", 1)
			// repeated and late requests
			for i := 0; i < 3; i++ {
				who := t.R.Intn(c.n)
				c.inject(t, fault{"results/repeated", fmt.Sprint(who == server, round, i), true, func() error {
					return cl.sendMsg(who, &servicesunlynx.SurveyResultsQuery{SurveyID: s.id, ClientPublic: s.pk})
				}})
				c.inject(t, fault{"response/late", fmt.Sprint(who == server, round, i), true, func() error {
					return s.submit(submission{server: who, resps: []libunlynx.DpClearResponse{randResponse(t.R, s.q, encModes[i], 3, 9, false)}})
				}})
			}
			if !c.good(t, cl, server) {
				return
			}
		}
	case "race": // late and repeated requests racing with the survey
		for round := 0; round < c.count; round++ {
			s := smallSurvey(cl, t.R, t.R.Perm(c.n), server, false)
			must(s.create())
			for i := range s.subs {
				must(s.submit(s.subs[i]))
			}
			var wg sync.WaitGroup
			var mu sync.Mutex
			accepted := append([]submission{}, s.subs...)
			for i := 0; i < 6; i++ {
				wg.Add(1)
				go func(i int, f *T) {
					defer wg.Done()
					nap(f.R)
					sub := submission{server: f.R.Intn(c.n), resps: []libunlynx.DpClearResponse{randResponse(f.R, s.q, encModes[i%len(encModes)], 3, 9, false)}}
					if s.submit(sub) == nil {
						mu.Lock()
						accepted = append(accepted, sub)
						mu.Unlock()
						f.Count("racing_responses_accepted", 1)
					} else {
						f.Count("racing_responses_refused", 1)
					}
				}(i, t.fork())
			}
			answers, errs := 0, 0
			var rs []sresult
			for i := 0; i < 3; i++ {
				wg.Add(1)
				go func(f *T) {
					defer wg.Done()
					r, err := s.results()
					mu.Lock()
					if err == nil {
						answers++
						rs = r
					} else {
						errs++
					}
					mu.Unlock()
				}(t.fork())
			}
			wg.Wait()
			if !t.Check(answers == 1 && errs == 2, "repeated-at-once", "%d answers and %d errors to three simultaneous results queries for one survey", answers, errs) {
				return
			}
			t.Nontrivial("race %d %d", round, len(accepted))
			if !s.judge(t, "accepted-but-lost", rs, accepted) {
				return
			}
		}
	case "closing": // long submissions, ready to be sent, arriving as the survey closes
		for round := 0; round < c.count; round++ {
			s := smallSurvey(cl, t.R, t.R.Perm(c.n), server, false)
			s.q.proofs = round%3 == 2
			must(s.create())
			for i := range s.subs {
				must(s.submit(s.subs[i]))
			}
			accepted := append([]submission{}, s.subs...)
			var late []submission
			var ready []*servicesunlynx.SurveyResponseQuery
			for i := 0; i < 5; i++ {
				var some []libunlynx.DpClearResponse
				for j := 0; j < 3; j++ {
					some = append(some, randResponse(t.R, s.q, "clear", 3, 9, false))
				}
				sub := submission{server: t.R.Intn(c.n)}
				for j := 0; j < 45; j++ {
					sub.resps = append(sub.resps, some[j%3])
				}
				m, err := servicesunlynx.EncryptDataToSurvey("late", s.id, sub.resps, s.ro.Aggregate, 1, s.q.count)
				must(err)
				late, ready = append(late, sub), append(ready, m)
			}
			var wg sync.WaitGroup
			var mu sync.Mutex
			for i := range late {
				wg.Add(1)
				go func(i int, f *T) {
					defer wg.Done()
					time.Sleep(time.Duration(f.R.Int63n(int64(8 * time.Millisecond))))
					if s.c.ask(late[i].server, ready[i], &servicesunlynx.ServiceState{}) == nil {
						mu.Lock()
						accepted = append(accepted, late[i])
						mu.Unlock()
						f.Count("long_responses_accepted_while_closing", 1)
					} else {
						f.Count("long_responses_refused_while_closing", 1)
					}
				}(i, t.fork())
			}
			time.Sleep(time.Duration(t.R.Int63n(int64(8 * time.Millisecond))))
			rs, err := s.results()
			wg.Wait()
			if !t.Check(err == nil, "closing", "results query among submissions: %v", err) {
				return
			}
			t.Nontrivial("closing %d %d", round, len(accepted))
			if !s.judge(t, "accepted-but-lost", rs, accepted) {
				return
			}
		}
	case "taken-id": // clients asking for an identifier that they choose
		for round := 0; round < c.count; round++ {
			s := smallSurvey(cl, t.R, t.R.Perm(c.n), server, false)
			must(s.create())
			half := t.R.Intn(len(s.subs) + 1)
			for i := 0; i < half; i++ {
				must(s.submit(s.subs[i]))
			}
			mine := []servicesunlynx.SurveyID{s.id, s.id, servicesunlynx.SurveyID(fmt.Sprint("mine", t.R.Int()))}
			var others []*survey
			for _, id := range append(mine, mine[2]) {
				o := smallSurvey(cl, t.R, t.R.Perm(c.n), t.R.Intn(c.n), false)
				m := o.creation()
				m.SurveyID = id
				var st servicesunlynx.ServiceState
				if s.c.ask(o.entry, m, &st) != nil {
					t.Count("chosen_identifiers_refused", 1)
					continue
				}
				o.id = st.SurveyID
				others = append(others, o)
			}
			seen := map[servicesunlynx.SurveyID]bool{s.id: true}
			for _, o := range others {
				t.Check(!seen[o.id], "taken-id", "two surveys have the identifier %s", o.id)
				seen[o.id] = true
			}
			for i := half; i < len(s.subs); i++ {
				e := s.submit(s.subs[i])
				t.Check(e == nil, "taken-id", "submission refused: %v", e)
			}
			for _, o := range append(others, s) {
				if o != s {
					for i := range o.subs {
						e := o.submit(o.subs[i])
						t.Check(e == nil, "taken-id", "submission refused: %v", e)
					}
				}
				rs, err := o.results()
				if !t.Check(err == nil, "taken-id", "results query: %v", err) || !o.judge(t, "taken-id", rs, o.subs) {
					return
				}
			}
			t.Nontrivial("taken-id %d", round)
		}
	case "early": // results asked for before the data is there
		for round := 0; round < c.count; round++ {
			s := smallSurvey(cl, t.R, t.R.Perm(c.n), server, t.R.Intn(2) == 0)
			for round%2 == 0 && len(s.subs) < 9 {
				s.subs = append(s.subs, s.subs[t.R.Intn(len(s.subs))])
			}
			must(s.create())
			done := make(chan string, 1)
			var rs []sresult
			var err error
			go func() { done <- noPanic(func() { rs, err = s.results() }) }()
			nap(t.R)
			for i := range s.subs {
				nap(t.R)
				c.inject(t, responseFaults(cl, t.R, server, s)[t.R.Intn(15)])
				e := s.submit(s.subs[i])
				t.Check(e == nil, "early", "submission refused: %v", e)
			}
			if p := <-done; !t.Check(p == "" && err == nil, "early", "results query asked early: %v %v", p, err) || !s.judge(t, "early", rs, s.subs) {
				return
			}
			t.Nontrivial("early %d", round)
		}
	case "storm": // faults while well-formed surveys run
		var wg sync.WaitGroup
		stop := make(chan bool)
		for w := 0; w < 3; w++ {
			wg.Add(1)
			go func(f *T) {
				defer wg.Done()
				var fs []fault
				for _, b := range byteFaults(cl, f.R, f.R.Intn(c.n), 20) {
					fs = append(fs, b)
				}
				for i := 0; i < c.n; i++ {
					fs = append(fs, creationFaults(cl, f.R, i, false)...)
					fs = append(fs, responseFaults(cl, f.R, i, nil)...)
					fs = append(fs, resultFaults(cl, f.R, i, nil)...)
				}
				for i := 0; i < c.count; i++ {
					select {
					case <-stop:
						return
					default:
					}
					c.inject(f, fs[f.R.Intn(len(fs))])
				}
			}(t.fork())
		}
		var wg2 sync.WaitGroup
		for w := 0; w < 4; w++ {
			wg2.Add(1)
			go func(f *T) {
				defer wg2.Done()
				for i := 0; i < 3; i++ {
					s := smallSurvey(cl, f.R, f.R.Perm(c.n), f.R.Intn(c.n), f.R.Intn(2) == 0)
					f.Count("surveys_during_faults", 1)
					if !s.run(f, "survey-among-faults", true) {
						return
					}
				}
			}(t.fork())
		}
		wg2.Wait()
		close(stop)
		wg.Wait()
		c.good(t, cl, server)
	}
}

// lost stops a server in the middle of a survey. The survey may fail, but must
// not give a wrong answer; the other servers keep answering.
func (c c20Case) lost(t *T) {
	for round := 0; round < c.count; round++ {
		cl := newSCluster(c.n, c.ws)
		libunlynx.TIMEOUT = 20 * time.Second
		order := t.R.Perm(c.n)
		victim, alive := order[0], order[1:]
		s := smallSurvey(cl, t.R, append([]int{}, order...), alive[0], false)
		before := smallSurvey(cl, t.R, append([]int{}, alive...), alive[0], false)
		must(s.create())
		must(before.create())
		for _, x := range []*survey{s, before} {
			for i := range x.subs {
				must(x.submit(x.subs[i]))
			}
		}
		at := int64(t.R.Intn(12 * c.n))
		var seen int64
		stopped := make(chan bool)
		var once sync.Once
		stop := func() {
			once.Do(func() {
				noPanic(func() { cl.servers[victim].Close() })
				close(stopped)
			})
		}
		sc := newSched(t.R, "jitter", func(string, *onet.OverlayMsg, interface{}, []byte) {
			if atomic.AddInt64(&seen, 1) > at {
				go stop()
			}
		})
		type answer struct {
			rs  []sresult
			err error
		}
		done := make(chan answer, 1)
		go func() {
			var a answer
			if p := noPanic(func() { a.rs, a.err = s.results() }); p != "" {
				a.err = fmt.Errorf("%s", p)
			}
			done <- a
		}()
		select {
		case <-stopped:
		case <-time.After(3 * time.Second):
			stop()
		}
		// the survey of the remaining servers, alive at the same time
		rs, err := before.results()
		if t.Check(err == nil, "lost-server-other", "results query of a survey that the stopped server has no part in: %v", err) {
			before.judge(t, "lost-server-other", rs, before.subs)
		}
		select {
		case a := <-done:
			if a.err == nil {
				t.Count("surveys_done_before_the_stop", 1)
				s.judge(t, "lost-server", a.rs, s.subs)
			} else {
				t.Count("surveys_failed_after_the_stop", 1)
			}
		case <-time.After(3 * time.Second):
			t.Count("surveys_without_an_answer_after_the_stop", 1)
		}
		sig := sc.done(t)
		after := smallSurvey(cl, t.R, append([]int{}, alive...), alive[t.R.Intn(len(alive))], t.R.Intn(2) == 0)
		if !after.run(t, "survey-after-fault", false) {
			return
		}
		t.Nontrivial("lost %d of %d/%s", at, c.n, sig)
	}
}

// randPredicateText strings tokens together.
func randPredicateText(r *rand.Rand) string {
	toks := []string{"v0", "v1", "==", "!=", "&&", "||", "!", "(", ")", "'a'", "1", "true", "false", "+", "-", "<", "in", "=~", "?", ":", ",", "v0 == v1", "v0 != v1", ".", "[v0]", "\\", "\"", "2015-01-02"}
	var l []string
	for i := 1 + r.Intn(8); i > 0; i-- {
		l = append(l, toks[r.Intn(len(toks))])
	}
	return strings.Join(l, []string{" ", ""}[r.Intn(2)])
}

// fuzzPredicates creates surveys with token soup as predicate; one that is
// accepted has to run to an end.
func fuzzPredicates(t *T, n int) {
	cl := getSCluster(2, false)
	for i := 0; i < n; i++ {
		s := smallSurvey(cl, t.R, []int{0, 1}, 0, false)
		s.q.predText = randPredicateText(t.R)
		if s.q.text() == "" {
			continue
		}
		err := s.create()
		t.Nontrivial("predicate %s", s.q.predText)
		if err != nil {
			t.Count("requests_refused", 1)
			continue
		}
		t.Count("odd_predicates_accepted", 1)
		t.Seen("odd_predicates_accepted", s.q.predText)
		for k := range s.subs {
			must(s.submit(s.subs[k]))
		}
		if _, err := s.results(); !t.Check(err == nil, "predicate-accepted-then-failed", "the predicate %q was accepted, then the survey failed: %v", s.q.predText, err) {
			return
		}
	}
	c20Case{}.good(t, cl, 0)
}

func c20Cases(tier string, seed int64) []Case {
	var out []Case
	mult := 1
	if tier == "thorough" {
		mult = 15
	}
	add := func(cost float64, c c20Case) {
		for i := 0; i < mult; i++ {
			out = append(out, Case{Name: fmt.Sprintf("%s/%d servers, client %v/%d", c.what, c.n, c.ws, i), Cost: cost, Run: c.run})
		}
	}
	for _, ws := range []bool{false, true} {
		for _, n := range []int{1, 2, 3} {
			add(2, c20Case{n: n, ws: ws, what: "creation"})
			add(1, c20Case{n: n, ws: ws, what: "idle"})
			add(1, c20Case{n: n, ws: ws, what: "unreachable"})
			add(3, c20Case{n: n, ws: ws, what: "victim", count: 2})
			add(2, c20Case{n: n, ws: ws, what: "race", count: 4})
			add(2, c20Case{n: n, ws: ws, what: "closing", count: 6})
			add(2, c20Case{n: n, ws: ws, what: "early", count: 4})
			add(2, c20Case{n: n, ws: ws, what: "taken-id", count: 2})
			add(2, c20Case{n: n, ws: ws, what: "bytes", count: 200})
		}
		add(4, c20Case{n: 3, ws: ws, what: "storm", count: 300})
		add(4, c20Case{n: 2, ws: ws, what: "peer", count: 2})
		add(4, c20Case{n: 3, ws: ws, what: "peer", count: 2})
	}
	add(4, c20Case{n: 2, what: "long"})
	for _, ws := range []bool{false, true} {
		for i := 0; i < 2*mult; i++ {
			c := c20Case{n: 3 + i%2, ws: ws, what: "lost", count: 2}
			out = append(out, Case{Name: fmt.Sprintf("lost/%d servers, client %v/%d", c.n, c.ws, i), Cost: 5, Fresh: true, Run: c.run})
		}
	}
	for i := 0; i < 4*mult; i++ {
		out = append(out, Case{Name: fmt.Sprintf("predicates/%d", i), Cost: 3, Run: func(t *T) { fuzzPredicates(t, 150) }})
	}
	return out
}
