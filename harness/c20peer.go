package main

// Bad requests that come from another server.

import (
	"fmt"
	"time"

	libunlynx "github.com/ldsec/unlynx/lib"
	servicesunlynx "github.com/ldsec/unlynx/services"
	"go.dedis.ch/onet/v3"
	"go.dedis.ch/onet/v3/network"
)

// peerFaults are messages of one server to another: malformed ones, and
// repeated ones of a living survey (if any) which it has to ignore.
func peerFaults(t *T, cl *scluster, from, to int, victim *survey) []fault {
	var out []fault
	r := t.R
	_, pk := newKey()
	send := func(kind, text string, msg interface{}) {
		out = append(out, fault{"peer/" + kind, text, false, func() error {
			return cl.services[from].SendRaw(cl.servers[to].ServerIdentity, msg)
		}})
	}
	creation := func(kind, text string, f func(q *servicesunlynx.SurveyCreationQuery)) {
		q := smallSurvey(cl, r, r.Perm(len(cl.servers)), from, false).creation()
		q.SurveyID = servicesunlynx.SurveyID(fmt.Sprint("peer-", r.Int63()))
		q.IntraMessage = true
		q.Source = cl.servers[from].ServerIdentity
		f(q)
		send("creation/"+kind, text, q)
	}
	creation("no-source", "", func(q *servicesunlynx.SurveyCreationQuery) { q.Source = nil })
	creation("no-source", "no id", func(q *servicesunlynx.SurveyCreationQuery) { q.Source, q.SurveyID = nil, "" })
	creation("other-source", "unknown server", func(q *servicesunlynx.SurveyCreationQuery) {
		q.Source = network.NewServerIdentity(pk, network.NewAddress(network.PlainTCP, "127.0.0.1:19"))
	})
	creation("other-source", "the receiver", func(q *servicesunlynx.SurveyCreationQuery) { q.Source = cl.servers[to].ServerIdentity })
	creation("other-source", "nothing known", func(q *servicesunlynx.SurveyCreationQuery) { q.Source = &network.ServerIdentity{} })
	creation("roster", "no key", func(q *servicesunlynx.SurveyCreationQuery) { q.Roster.Aggregate = nil })
	creation("roster", "empty", func(q *servicesunlynx.SurveyCreationQuery) { q.Roster = onet.Roster{} })
	creation("roster", "no list", func(q *servicesunlynx.SurveyCreationQuery) { q.Roster.List = nil })
	creation("roster", "twice", func(q *servicesunlynx.SurveyCreationQuery) {
		q.Roster.List = append(append([]*network.ServerIdentity{}, q.Roster.List...), q.Roster.List...)
	})
	creation("roster", "without the receiver", func(q *servicesunlynx.SurveyCreationQuery) {
		q.Roster = *onet.NewRoster([]*network.ServerIdentity{cl.servers[from].ServerIdentity})
	})
	creation("roster", "member without key", func(q *servicesunlynx.SurveyCreationQuery) {
		si := *q.Roster.List[0]
		si.Public = nil
		q.Roster.List = append([]*network.ServerIdentity{&si}, q.Roster.List[1:]...)
	})
	creation("predicate", "", func(q *servicesunlynx.SurveyCreationQuery) {
		q.Predicate = badPredicates[r.Intn(len(badPredicates))]
	})
	creation("where", "", func(q *servicesunlynx.SurveyCreationQuery) {
		q.Where = append(q.Where, libunlynx.WhereQueryAttribute{Name: "w9"})
	})
	creation("nothing", "", func(q *servicesunlynx.SurveyCreationQuery) {
		*q = servicesunlynx.SurveyCreationQuery{IntraMessage: true}
	})
	creation("nothing", "as from a client", func(q *servicesunlynx.SurveyCreationQuery) { *q = servicesunlynx.SurveyCreationQuery{} })
	for _, id := range []servicesunlynx.SurveyID{"", "no-such-survey"} {
		for _, intra := range []bool{true, false} {
			text := fmt.Sprintf("id %q intra %v", id, intra)
			send("results/unknown-survey", text, &servicesunlynx.SurveyResultsQuery{SurveyID: id, IntraMessage: intra, ClientPublic: pk})
			send("results/nothing", text, &servicesunlynx.SurveyResultsQuery{SurveyID: id, IntraMessage: intra})
		}
		send("ddt-finished/unknown-survey", fmt.Sprintf("id %q", id), &servicesunlynx.DDTfinished{SurveyID: id})
		send("broadcast-finished/unknown-survey", fmt.Sprintf("id %q", id), &servicesunlynx.QueryBroadcastFinished{SurveyID: id})
	}
	send("response", "not for servers", &servicesunlynx.SurveyResponseQuery{SurveyID: "no-such-survey"})
	if victim != nil {
		again := func(text string, f func(q *servicesunlynx.SurveyCreationQuery)) {
			q := victim.creation()
			q.SurveyID, q.IntraMessage, q.Source = victim.id, true, cl.servers[from].ServerIdentity
			f(q)
			send("creation/repeated", text, q)
		}
		again("the same", func(q *servicesunlynx.SurveyCreationQuery) {})
		again("another query", func(q *servicesunlynx.SurveyCreationQuery) { q.Sum, q.GroupBy, q.Predicate = []string{"x"}, nil, "" })
		send("results/no-key", "known survey", &servicesunlynx.SurveyResultsQuery{SurveyID: victim.id, IntraMessage: true})
		send("broadcast-finished/repeated", "known survey", &servicesunlynx.QueryBroadcastFinished{SurveyID: victim.id})
	}
	return out
}

// peer runs a survey while one server sends bad messages to another.
func (c *c20Case) peer(t *T, cl *scluster, server int) {
	for round := 0; round < c.count; round++ {
		s := smallSurvey(cl, t.R, t.R.Perm(c.n), server, t.R.Intn(2) == 0)
		var before []fault
		for to := 0; to < c.n; to++ {
			before = append(before, peerFaults(t, cl, (to+1+t.R.Intn(c.n-1))%c.n, to, nil)...)
		}
		t.R.Shuffle(len(before), func(i, j int) { before[i], before[j] = before[j], before[i] })
		half := len(before) / 2
		give := func(fs []fault) {
			for _, f := range fs {
				c.inject(t, f)
			}
			time.Sleep(time.Duration(20+t.R.Intn(60)) * time.Millisecond) // they are processed at the same time
		}
		give(before[:half])
		must(s.create())
		give(before[half:])
		var during []fault
		for to := 0; to < c.n; to++ {
			during = append(during, peerFaults(t, cl, (to+1+t.R.Intn(c.n-1))%c.n, to, s)...)
		}
		t.R.Shuffle(len(during), func(i, j int) { during[i], during[j] = during[j], during[i] })
		k := 0
		for i := range s.subs {
			must(s.submit(s.subs[i]))
			n := len(during) * (i + 1) / len(s.subs)
			give(during[k:n])
			k = n
		}
		give(during[k:])
		rs, err := s.results()
		if !t.Check(err == nil, "survey-with-peer-faults", "results query failed: %v", err) || !s.judge(t, "survey-with-peer-faults", rs, s.subs) {
			return
		}
		t.Count("surveys_with_faults_from_servers", 1)
		if !c.good(t, cl, server) {
			return
		}
	}
}
