package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"sync"
	"sync/atomic"
	"time"

	libunlynx "github.com/ldsec/unlynx/lib"
	libunlynxaggr "github.com/ldsec/unlynx/lib/aggregation"
	libunlynxkeyswitch "github.com/ldsec/unlynx/lib/key_switch"
	libunlynxshuffle "github.com/ldsec/unlynx/lib/shuffle"
	libunlynxtools "github.com/ldsec/unlynx/lib/tools"
	protocolsunlynx "github.com/ldsec/unlynx/protocols"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
)

func init() {
	register(&Check{
		ID:          "C25",
		NetNS:       true,
		Rule:        "a case runs a protocol (key switching, shuffling, tagging, shuffling with tagging, collective aggregation; 2-5 servers, proofs on or off) or a whole survey in which one message of one server is replaced as it leaves: fields emptied, truncated, extended, overwritten or replayed from another run, or the counts and the data changed together so that they still decode (entries or rows removed, repeated, added, rows of different widths, groups of different sizes); the process must survive, a result the run still gives must have the dimensions of its input, and runs and surveys at the same time and afterwards on the same servers must be exact; an evaluation is one run, non-trivial when a message was replaced (distinct by protocol, servers, message, replacement and order of messages)",
		Assumptions: []string{"a run whose message was replaced may end without a result", "the replaced messages are well-formed messages of the network layer (onet)"},
		Cases:       c25Cases,
	})
}

// forger replaces one message (or a count and the data that follows it) of a run.
type forger struct {
	mu     sync.Mutex
	r      *rand.Rand
	round  string // only messages of the run with this tree ("": all)
	want   string // only messages of this type
	at     int    // the message to replace, in the order of sending
	how    string // bytes, shape
	prior  [][]byte
	n      int
	owed   map[string]func(interface{}) // sender -> what to do with its next data message
	did    string
	forged int64

	plan  int // which of the ways to change it, counted from 1 (0: by chance)
	field int // which of its fields, likewise
}

// pick chooses one of n ways.
func (f *forger) pick(n int) int {
	if f.plan > 0 {
		return (f.plan - 1) % n
	}
	return f.r.Intn(n)
}

// tamper is called by the wire tap; msg is private to the call.
func (f *forger) tamper(proto string, info *onet.OverlayMsg, msg interface{}) bool {
	if f.round != "" && info.TreeNodeInfo.From.TreeID.String() != f.round {
		return false
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	from := info.TreeNodeInfo.From.TreeNodeID.String()
	if g := f.owed[from]; g != nil {
		delete(f.owed, from)
		g(msg)
		return true
	}
	if fmt.Sprintf("%T", msg) != "*protocolsunlynx."+f.want {
		f.keep(msg)
		return false
	}
	k := f.n
	f.n++
	if k != f.at {
		f.keep(msg)
		return false
	}
	ok := false
	if f.how == "shape" {
		ok = f.shape(from, msg)
	}
	if !ok {
		ok = f.bytes(msg)
	}
	if ok {
		atomic.AddInt64(&f.forged, 1)
	} else {
		f.at++ // a message without content
	}
	return ok
}

// keep remembers what honest messages carry.
func (f *forger) keep(msg interface{}) {
	v := reflect.ValueOf(msg).Elem()
	for i := 0; v.Kind() == reflect.Struct && i < v.NumField(); i++ {
		if b, ok := v.Field(i).Interface().([]byte); ok && len(b) > 0 && len(f.prior) < 20 {
			f.prior = append(f.prior, append([]byte{}, b...))
		}
	}
}

var forgeOps = []string{"empty", "truncate", "cut-entry", "extend", "double", "flip", "noise", "zero", "ones", "foreign", "short"}

func (f *forger) forgeBytes(b []byte) ([]byte, string) {
	op := forgeOps[f.pick(len(forgeOps))]
	out := append([]byte{}, b...)
	switch op {
	case "empty":
		out = nil
	case "truncate":
		if len(out) > 0 {
			out = out[:f.r.Intn(len(out))]
		}
	case "cut-entry":
		for _, s := range []int{64, 32, 4} {
			if len(out) >= s {
				out = out[:len(out)-s]
				break
			}
		}
	case "extend":
		x := []int{1, 4, 32, 64, 128}[f.r.Intn(5)]
		for len(out) > 0 && x > 0 {
			k := minInt(x, len(b))
			out = append(out, b[:k]...)
			x -= k
		}
	case "double":
		out = append(out, b...)
	case "flip":
		for i := 0; len(out) > 0 && i <= f.r.Intn(3); i++ {
			out[f.r.Intn(len(out))] ^= 1 << uint(f.r.Intn(8))
		}
	case "noise":
		f.r.Read(out)
	case "zero":
		for i := range out {
			out[i] = 0
		}
	case "ones":
		for i := range out {
			out[i] = 0xff
		}
	case "foreign":
		if len(f.prior) > 0 {
			out = append([]byte{}, f.prior[f.r.Intn(len(f.prior))]...)
		}
	case "short":
		out = []byte("0123456789")[:f.r.Intn(10)]
	}
	return out, op
}

// bytes changes one field of the message on its own.
func (f *forger) bytes(msg interface{}) bool {
	v := reflect.ValueOf(msg).Elem()
	if v.Kind() != reflect.Struct || v.NumField() == 0 {
		return false
	}
	i := f.r.Intn(v.NumField())
	if f.field > 0 {
		i = (f.field - 1) % v.NumField()
	}
	fd := v.Field(i)
	name := fmt.Sprintf("%T.%s", msg, v.Type().Field(i).Name)
	switch x := fd.Interface().(type) {
	case []byte:
		b, op := f.forgeBytes(x)
		fd.SetBytes(b)
		f.did = fmt.Sprintf("%s %s (%d to %d bytes)", name, op, len(x), len(b))
		return true
	case int:
		y := []int{0, -1, x + 1, x - 1, 1 << 20, 1 << 40, -1 << 40, x * 2}[f.pick(8)]
		fd.SetInt(int64(y))
		f.did = fmt.Sprintf("%s %d to %d", name, x, y)
		return true
	}
	return false
}

func (f *forger) entry() []byte {
	if len(f.prior) > 0 && f.r.Intn(2) == 0 {
		for _, p := range f.prior {
			if len(p) >= libunlynx.CipherTextByteSize() {
				return p[:libunlynx.CipherTextByteSize()]
			}
		}
	}
	_, pk := newKey()
	c := encWith(pk, 3)
	return []byte(ctBytes(&c))
}

// entries cuts the data of a list of ciphertexts.
func entries(b []byte) [][]byte {
	s := libunlynx.CipherTextByteSize()
	var out [][]byte
	for i := 0; i+s <= len(b); i += s {
		out = append(out, append([]byte{}, b[i:i+s]...))
	}
	return out
}

func joinBytes(l [][]byte) []byte {
	out := []byte{}
	for _, b := range l {
		out = append(out, b...)
	}
	return out
}

// resize changes the number of entries of a list.
func (f *forger) resize(n int) (int, string) {
	switch f.pick(6) {
	case 0:
		return 0, "no entry"
	case 1:
		if n > 0 {
			return n - 1, "one entry less"
		}
		return 1, "one entry"
	case 2:
		return n + 1, "one entry more"
	case 3:
		return 2*n + 1, "twice the entries"
	case 4:
		return 1, "one entry"
	}
	return n + 150, "150 entries more"
}

func (f *forger) fit(data []byte, n int) []byte {
	es := entries(data)
	for len(es) < n {
		if len(es) > 0 && f.r.Intn(3) > 0 {
			es = append(es, es[f.r.Intn(len(es))])
		} else {
			es = append(es, f.entry())
		}
	}
	return joinBytes(es[:n])
}

// shape changes counts and data together.
func (f *forger) shape(from string, msg interface{}) bool {
	if f.owed == nil {
		f.owed = map[string]func(interface{}){}
	}
	rows := func(b []byte) ([]byte, func([]byte) []byte, bool) {
		l := libunlynxtools.UnsafeCastBytesToInts(b)
		if string(libunlynxtools.UnsafeCastIntsToBytes(l)) != string(b) {
			return nil, nil, false
		}
		m := append([]int{}, l...)
		ops := []string{"no rows", "one row", "a row less", "a row more", "first row wider", "last row wider", "first row narrower", "last row narrower", "a row without entries", "all rows without entries", "all rows wider", "all rows narrower", "many rows"}
		op := ops[f.pick(len(ops))]
		add := func(i, d int) {
			if i >= 0 && i < len(m) && m[i]+d >= 0 {
				m[i] += d
			}
		}
		switch op {
		case "no rows":
			m = nil
		case "one row":
			m = append(m, 1)[:1]
		case "a row less":
			if len(m) > 0 {
				m = m[:len(m)-1]
			}
		case "a row more":
			m = append(m, append(m, 1)[0])
		case "first row wider":
			add(0, 1)
		case "last row wider":
			add(len(m)-1, 1+f.r.Intn(3))
		case "first row narrower":
			add(0, -1)
		case "last row narrower":
			add(len(m)-1, -1)
		case "a row without entries":
			if len(m) > 0 {
				m[f.r.Intn(len(m))] = 0
			}
		case "all rows without entries":
			for i := range m {
				m[i] = 0
			}
		case "all rows wider":
			for i := range m {
				m[i] += 2
			}
		case "all rows narrower":
			for i := range m {
				add(i, -1)
			}
		case "many rows":
			for i := 0; i < 130; i++ {
				m = append(m, append(m, 1)[0])
			}
		}
		total := 0
		for _, x := range m {
			total += x
		}
		f.did = fmt.Sprintf("%T %s (%v)", msg, op, shortInts(m))
		return libunlynxtools.UnsafeCastIntsToBytes(m), func(d []byte) []byte { return f.fit(d, total) }, true
	}
	switch m := msg.(type) {
	case *protocolsunlynx.LengthMessage:
		l := libunlynxtools.UnsafeCastBytesToInts(m.Length)
		if len(l) != 1 {
			return false
		}
		n, what := f.resize(l[0])
		m.Length = libunlynxtools.UnsafeCastIntsToBytes([]int{n})
		f.did = fmt.Sprintf("%T %s (%d to %d)", msg, what, l[0], n)
		f.owed[from] = func(x interface{}) {
			if d, ok := x.(*protocolsunlynx.UpBytesMessage); ok {
				d.Data = f.fit(d.Data, n)
			}
		}
	case *protocolsunlynx.DownMessageBytes:
		k := len(m.Data) / 32
		n, what := f.resize(k)
		var out []byte
		for i := 0; i < n; i++ {
			if i < k {
				out = append(out, m.Data[32*i:32*i+32]...)
			} else {
				out = append(out, f.entry()[:32]...)
			}
		}
		m.Data = out
		f.did = fmt.Sprintf("%T %s (%d to %d points)", msg, what, k, n)
	case *protocolsunlynx.ShufflingBytesMessageLength:
		b, g, ok := rows(m.CVLengths)
		if !ok {
			return false
		}
		m.CVLengths = b
		f.owed[from] = func(x interface{}) {
			if d, ok := x.(*protocolsunlynx.ShufflingBytesMessage); ok {
				d.Data = g(d.Data)
			}
		}
	case *protocolsunlynx.ShufflingPlusDDTBytesLength:
		b, g, ok := rows(m.CVLengths)
		if !ok {
			return false
		}
		m.CVLengths = b
		f.owed[from] = func(x interface{}) {
			if d, ok := x.(*protocolsunlynx.ShufflingPlusDDTBytesMessage); ok {
				d.Data = g(d.Data)
			}
		}
	case *protocolsunlynx.DeterministicTaggingBytesMessage:
		k := len(m.Data) / libunlynx.CipherTextByteSize()
		n, what := f.resize(k)
		m.Data = f.fit(m.Data, n)
		f.did = fmt.Sprintf("%T %s (%d to %d)", msg, what, k, n)
	case *protocolsunlynx.CADBLengthMessage:
		was := *m
		g, a, d, k := f.r.Intn(3), f.r.Intn(4), 0, f.r.Intn(5)
		keys := []string{"", "x", "tag-number-0", string(f.entry()[:32])}
		key := keys[f.r.Intn(len(keys))]
		d = len(key)
		*m = protocolsunlynx.CADBLengthMessage{GacbLength: g, AabLength: a, DtbLength: d}
		if f.r.Intn(3) == 0 {
			// the honest groups with more or fewer attributes
			*m = was
			m.AabLength = maxInt(0, was.AabLength+[]int{-1, 1, 2}[f.r.Intn(3)])
			g, a, d = m.GacbLength, m.AabLength, m.DtbLength
			if d != len(key) {
				key = string(make([]byte, d))
			}
		}
		f.did = fmt.Sprintf("%T %d groups of %d, %d and %d instead of %v", msg, k, g, a, d, was)
		f.owed[from] = func(x interface{}) {
			data, ok := x.(*protocolsunlynx.ChildAggregatedDataBytesMessage)
			if !ok {
				return
			}
			fr := libunlynx.FilteredResponseDet{DetTagGroupBy: libunlynx.GroupingKey(key)}
			_, pk := newKey()
			fr.Fr.GroupByEnc = encVec(pk, make([]int64, g))
			fr.Fr.AggregatingAttributes = encVec(pk, make([]int64, a))
			one, _, _, _, err := fr.ToBytes()
			if err != nil {
				return
			}
			data.Data = nil
			for i := 0; i < k; i++ {
				data.Data = append(data.Data, one...)
			}
		}
	default:
		return false
	}
	return true
}

func shortInts(l []int) string {
	if len(l) > 8 {
		return fmt.Sprintf("%v... %d in all", l[:8], len(l))
	}
	return fmt.Sprint(l)
}

// messages of the protocols: those that announce or are the shape first, and
// those which only carry the data of another one.
var heads = map[string][]string{
	"KeySwitching":          {"LengthMessage", "DownMessageBytes"},
	"Shuffling":             {"ShufflingBytesMessageLength"},
	"DeterministicTagging":  {"DeterministicTaggingBytesMessage"},
	"ShufflingPlusDDT":      {"ShufflingPlusDDTBytesLength"},
	"CollectiveAggregation": {"CADBLengthMessage"},
}
var bodies = map[string][]string{
	"KeySwitching":          {"UpBytesMessage"},
	"Shuffling":             {"ShufflingBytesMessage"},
	"ShufflingPlusDDT":      {"ShufflingPlusDDTBytesMessage"},
	"CollectiveAggregation": {"ChildAggregatedDataBytesMessage"},
}

// newForger chooses a message of a protocol; there are about span of each type.
func newForger(r *rand.Rand, proto string, span int) *forger {
	f := &forger{r: rand.New(rand.NewSource(r.Int63())), at: r.Intn(span), how: []string{"shape", "shape", "bytes"}[r.Intn(3)]}
	types := append([]string{}, heads[proto]...)
	if f.how == "bytes" {
		types = append(types, bodies[proto]...)
	}
	f.want = types[r.Intn(len(types))]
	return f
}

type c25Case struct {
	proto string
	n     int
	kind  string
	count int
	conc  bool
	proof bool
	plans []c25Plan
}

// c25Plan is one way to change one message of a run: the first or the last of its type.
type c25Plan struct {
	want, how   string
	field, plan int
	last        bool
}

// c25Plans are all ways to change the messages of a protocol.
func c25Plans(proto string) []c25Plan {
	var out []c25Plan
	add := func(want, how string, field, n int) {
		for i := 1; i <= n; i++ {
			out = append(out, c25Plan{want, how, field, i, false}, c25Plan{want, how, field, i, true})
		}
	}
	fields := map[string][]int{ // number of ways to change each field
		"CADBLengthMessage":            {8, 8, 8},
		"ShufflingPlusDDTBytesMessage": {len(forgeOps), len(forgeOps)},
	}
	shapes := map[string]int{"ShufflingBytesMessageLength": 13, "ShufflingPlusDDTBytesLength": 13, "CADBLengthMessage": 8}
	for _, w := range append(append([]string{}, heads[proto]...), bodies[proto]...) {
		fs := fields[w]
		if fs == nil {
			fs = []int{len(forgeOps)}
		}
		for i, n := range fs {
			add(w, "bytes", i+1, n)
		}
	}
	for _, w := range heads[proto] {
		n := shapes[w]
		if n == 0 {
			n = 6
		}
		add(w, "shape", 0, n)
	}
	return out
}

func (c c25Case) String() string {
	return fmt.Sprintf("%s, %d servers, %s tree, proofs %v", c.proto, c.n, c.kind, c.proof)
}

// hostile runs the protocol with a message replaced and waits for a result, if any.
func (c c25Case) hostile(t *T, cl *cluster, ro *onet.Roster, tr *onet.Tree) {
	rows, width := 1+t.R.Intn(5), 1+t.R.Intn(3)
	in := matInts(t, rows, width)
	inC := t.encMat(ro.Aggregate, in)
	cv := t.encVec(ro.Aggregate, mixedInts(t, rows))
	sv := newTagSurvey(cl)
	_, qpk := newKey()
	result := make(chan string, 1)
	var start func() error
	var wait func()
	dims := func(ok bool, format string, a ...interface{}) {
		if ok {
			result <- ""
		} else {
			result <- fmt.Sprintf(format, a...)
		}
	}
	pi := cl.create(c.proto, tr, func(tni *onet.TreeNodeInstance, pi onet.ProtocolInstance) {
		switch p := pi.(type) {
		case *protocolsunlynx.KeySwitchingProtocol:
			if tni.IsRoot() {
				p.TargetOfSwitch, p.TargetPublicKey = &cv, &qpk
			}
			p.Proofs = c.proof
			p.ProofFunc = func(pub, target kyber.Point, priv kyber.Scalar, ks2s, rBNegs []kyber.Point, vis []kyber.Scalar) *libunlynxkeyswitch.PublishedKSListProof {
				libunlynxkeyswitch.KeySwitchListProofCreation(pub, target, priv, ks2s, rBNegs, vis)
				return nil
			}
		case *protocolsunlynx.ShufflingProtocol:
			if tni.IsRoot() {
				p.ShuffleTarget = &inC
			}
			p.Proofs = c.proof
			p.ProofFunc = func(a, b []libunlynx.CipherVector, k kyber.Point, beta [][]kyber.Scalar, pi []int) *libunlynxshuffle.PublishedShufflingProof {
				libunlynxshuffle.ShuffleProofCreation(a, b, suite.Point().Base(), k, beta, pi)
				return nil
			}
		case *protocolsunlynx.DeterministicTaggingProtocol:
			if tni.IsRoot() {
				p.TargetOfSwitch = &cv
			}
			sec := sv.secrets[tni.ServerIdentity().ID]
			p.SurveySecretKey, p.Proofs = &sec, c.proof
		case *protocolsunlynx.ShufflingPlusDDTProtocol:
			if tni.IsRoot() {
				p.TargetData = &inC
			}
			sec := sv.secrets[tni.ServerIdentity().ID]
			p.SurveySecretKey, p.Proofs = &sec, c.proof
		case *protocolsunlynx.CollectiveAggregationProtocol:
			data := map[libunlynx.GroupingKey]libunlynx.FilteredResponse{}
			for i := 0; i < rows; i++ {
				data[libunlynx.GroupingKey(fmt.Sprint("tag-number-", i))] = libunlynx.FilteredResponse{AggregatingAttributes: cloneVec(inC[i])}
			}
			p.GroupedData, p.Proofs = &data, c.proof
			p.ProofFunc = func(d []libunlynx.CipherVector, r libunlynx.CipherVector) *libunlynxaggr.PublishedAggregationListProof {
				libunlynxaggr.AggregationListProofCreation(d, r)
				return nil
			}
		}
	})
	switch p := pi.(type) {
	case *protocolsunlynx.KeySwitchingProtocol:
		start, wait = p.Start, func() { x := <-p.FeedbackChannel; dims(len(x) == rows, "%d entries for %d", len(x), rows) }
	case *protocolsunlynx.ShufflingProtocol:
		start, wait = p.Start, func() {
			x := <-p.FeedbackChannel
			ok := len(x) == rows
			for i := range x {
				ok = ok && len(x[i]) == width
			}
			dims(ok, "%d rows for %d of %d", len(x), rows, width)
		}
	case *protocolsunlynx.DeterministicTaggingProtocol:
		start, wait = p.Start, func() { x := <-p.FeedbackChannel; dims(len(x) == rows, "%d tags for %d", len(x), rows) }
	case *protocolsunlynx.ShufflingPlusDDTProtocol:
		start, wait = p.Start, func() {
			x := <-p.FeedbackChannel
			ok := len(x) == rows
			for i := range x {
				ok = ok && len(x[i]) == width
			}
			dims(ok, "%d rows for %d of %d", len(x), rows, width)
		}
	case *protocolsunlynx.CollectiveAggregationProtocol:
		start, wait = p.Start, func() { <-p.FeedbackChannel; result <- "" }
	}
	go wait()
	go start()
	select {
	case r := <-result:
		t.Count("runs_with_a_result", 1)
		t.Check(r == "", "dimensions", "%s: %s", c, r)
	case <-time.After(700 * time.Millisecond):
		t.Count("runs_without_a_result", 1)
	}
}

// honest runs the protocol as usual and judges it.
func (c c25Case) honest(t *T, cl *cluster, ro *onet.Roster, tr *onet.Tree) {
	nc := netCase{n: c.n, kind: c.kind, size: 1 + t.R.Intn(4), sched: "none"}
	switch c.proto {
	case "KeySwitching":
		runKS(t, nc, cl, ro, tr)
	case "Shuffling":
		runShuffle(t, shufCase{netCase: nc, width: 2}, cl, ro, tr, false)
	case "DeterministicTagging":
		runDDT(t, newTagSurvey(cl), nc, 5, cl, ro, tr)
	case "ShufflingPlusDDT":
		m := matInts(t, nc.size, 2)
		out := runSDDT(t, newTagSurvey(cl), m, nc, "", cl, tr)
		t.Check(len(out) == len(m), "length", "%d rows for %d", len(out), len(m))
	case "CollectiveAggregation":
		runAggr(t, aggrCase{netCase: nc, width: 2, deal: "some", keys: "tag"}, cl, ro, tr)
	}
}

func (c c25Case) run(t *T) {
	libunlynx.TIMEOUT = 20 * time.Second
	count := c.count
	if c.plans != nil {
		count = len(c.plans)
	}
	for i := 0; i < count; i++ {
		cl := getCluster(c.n)
		used := map[onet.TreeID]bool{}
		ro, tr := cl.distinctTree(c.kind, t.R, used)
		span := c.n - 1
		if c.proto == "Shuffling" || c.proto == "ShufflingPlusDDT" {
			span = c.n
		} else if c.proto == "DeterministicTagging" {
			span = 2 * c.n
		}
		f := newForger(t.R, c.proto, span)
		if c.plans != nil {
			pl := c.plans[i]
			f.want, f.how, f.field, f.plan, f.at = pl.want, pl.how, pl.field, pl.plan, 0
			if pl.last {
				f.at = span - 1
			}
		}
		f.round = tr.ID.String()
		s := newSched(t.R, "none", nil)
		setTamper(f.tamper)
		var wg sync.WaitGroup
		if c.conc && c.n > 2 {
			oro, otr := cl.distinctTree(c.kind, t.R, used)
			ft := t.fork()
			wg.Add(1)
			go func() {
				defer wg.Done()
				c.honest(ft, cl, oro, otr)
			}()
		}
		c.hostile(t, cl, ro, tr)
		wg.Wait()
		setTamper(nil)
		f.mu.Lock()
		did, forged := f.did, f.forged
		f.mu.Unlock()
		sig := s.done(t)
		if c.n > 2 {
			ro, tr = cl.distinctTree(c.kind, t.R, used)
		} else {
			ro, tr = cl.distinctTree(c.kind, t.R, map[onet.TreeID]bool{tr.ID: true})
		}
		c.honest(t, cl, ro, tr)
		if forged > 0 {
			t.Count("messages_replaced", forged)
			t.Seen("replacements", did)
			t.Nontrivial("%s/%s/%s", c, did, sig)
			t.Sample("%s: %s", c, did)
		} else {
			t.Trivial()
		}
	}
}

// survey runs a whole survey with a message replaced, beside one that has none, and one afterwards.
func (c c25Case) survey(t *T) {
	cl := getSCluster(c.n, false)
	for i := 0; i < c.count; i++ {
		libunlynx.TIMEOUT = 30 * time.Second
		members := t.R.Perm(c.n)
		s := smallSurvey(cl, t.R, append([]int{}, members...), members[0], false)
		s.q.proofs = c.proof
		beside := smallSurvey(cl, t.R, append([]int{}, members...), members[c.n-1], false)
		for _, x := range []*survey{s, beside} {
			must(x.create())
			for j := range x.subs {
				must(x.submit(x.subs[j]))
			}
		}
		proto := []string{"Shuffling", "DeterministicTagging", "Shuffling", "CollectiveAggregation", "KeySwitching"}[(i+t.R.Intn(2))%5]
		f := newForger(t.R, proto, c.n)
		if proto == "KeySwitching" || proto == "CollectiveAggregation" {
			f.at %= c.n - 1
		}
		sc := newSched(t.R, "jitter", nil)
		setTamper(f.tamper)
		done := make(chan error, 1)
		go func() {
			_, err := s.results()
			done <- err
		}()
		select {
		case err := <-done:
			if err == nil {
				t.Count("surveys_with_an_answer", 1)
			} else {
				t.Count("surveys_with_an_error", 1)
			}
		case <-time.After(2500 * time.Millisecond):
			t.Count("surveys_without_an_answer", 1)
		}
		setTamper(nil)
		rs, err := beside.results()
		if t.Check(err == nil, "other-survey", "results query of another survey: %v", err) {
			beside.judge(t, "other-survey", rs, beside.subs)
		}
		sig := sc.done(t)
		after := smallSurvey(cl, t.R, append([]int{}, members...), members[t.R.Intn(c.n)], false)
		if !after.run(t, "survey-after", false) {
			return
		}
		f.mu.Lock()
		if f.forged > 0 {
			t.Count("messages_replaced", f.forged)
			t.Seen("replacements", f.did)
			t.Nontrivial("survey of %d, proofs %v/%s/%s", c.n, c.proof, f.did, sig)
			t.Sample("survey: %s", f.did)
		} else {
			t.Trivial()
		}
		f.mu.Unlock()
	}
}

func c25Cases(tier string, seed int64) []Case {
	var out []Case
	protos := []string{"KeySwitching", "Shuffling", "DeterministicTagging", "ShufflingPlusDDT", "CollectiveAggregation"}
	reps, count := 1, 8
	if tier == "thorough" {
		reps, count = 12, 20
	}
	k := 0
	for i, p := range protos {
		plans := c25Plans(p)
		for part := 0; part < 6; part++ {
			c := c25Case{proto: p, n: []int{2, 3, 4}[(i+part)%3], kind: []string{"star", "line", "binary"}[(i+part)%3], proof: part%2 == 0}
			for j := part; j < len(plans); j += 6 {
				c.plans = append(c.plans, plans[j])
			}
			out = append(out, Case{Name: fmt.Sprintf("every-%s-%d", p, part), Cost: 2 * float64(len(c.plans)) / 8, Run: c.run})
		}
	}
	for rep := 0; rep < reps; rep++ {
		for _, p := range protos {
			for _, n := range []int{2, 3, 5} {
				c := c25Case{proto: p, n: n, kind: treeKinds[k%len(treeKinds)], count: count, conc: k%2 == 0, proof: (k/2)%2 == 0}
				k++
				out = append(out, Case{Name: fmt.Sprintf("%s-%d-%d", p, n, rep), Cost: 2, Run: c.run})
			}
		}
		for n := 2; n <= 3; n++ {
			for _, proof := range []bool{false, true} {
				c := c25Case{proto: "survey", n: n, count: count, proof: proof}
				out = append(out, Case{Name: fmt.Sprintf("survey-%d-%v-%d", n, proof, rep), Cost: 8, Run: c.survey})
			}
		}
	}
	return out
}
