package main

import (
	"bytes"
	"context"
	"fmt"
	"io/ioutil"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/BurntSushi/toml"
	"github.com/gorilla/websocket"
	dataunlynx "github.com/ldsec/unlynx/data"
	libunlynx "github.com/ldsec/unlynx/lib"
	servicesunlynx "github.com/ldsec/unlynx/services"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/kyber/v3/util/encoding"
	"go.dedis.ch/kyber/v3/util/key"
	"go.dedis.ch/onet/v3/app"
	"go.dedis.ch/onet/v3/network"
	"go.dedis.ch/protobuf"
)

func init() {
	register(&Check{
		ID:    "C19",
		NetNS: true,
		Rule:  "the real unlynx program is run. (a) against recording servers: generated command lines, well formed (any spacing), malformed (every kind of damage to each argument) or in between; refused (non-zero exit) without any connection, or the creation query that reaches the first server carries exactly the sums, count, where values (opened), predicate, group-by, proofs and roster written, and the answer that server gives is what is printed; (b) against 1-4 real server processes with their own data files: what is printed is the query evaluated in the clear over all the data. An evaluation is one run of the program, non-trivial when it sent a query or was refused for a malformed argument (distinct by command line)",
		Assumptions: []string{
			"the documented forms are those of the program's usage text, e.g. {s1, s2}, {w1, 1, w2, 27}, (v0 == v1 || v2 == v3) && v4 == v5; forms that are neither documented nor clearly damaged may be refused or run as written",
			"the answer is printed at debug level 1 (-d 1)",
		},
		Cases: c19Cases,
	})
}

// ---- configuration

type c19Conf struct {
	dir   string
	n     int
	keys  []*key.Pair
	ports []int
	group string // file
}

// consecutive free ports (a server listens on two)
func freePorts(n int) ([]int, [][2]net.Listener) {
	var ports []int
	var ls [][2]net.Listener
	for len(ports) < n {
		a, err := net.Listen("tcp", "127.0.0.1:0")
		must(err)
		p := a.Addr().(*net.TCPAddr).Port
		b, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", p+1))
		if err != nil {
			a.Close()
			continue
		}
		ports, ls = append(ports, p), append(ls, [2]net.Listener{a, b})
	}
	return ports, ls
}

func newC19Conf(t *T, n int) (*c19Conf, [][2]net.Listener) {
	dir, err := ioutil.TempDir(t.Dir, "c19")
	must(err)
	c := &c19Conf{dir: dir, n: n}
	var ls [][2]net.Listener
	c.ports, ls = freePorts(n)
	var servers []*app.ServerToml
	for i := 0; i < n; i++ {
		k := key.NewKeyPair(suite)
		c.keys = append(c.keys, k)
		pub, err := encoding.PointToStringHex(suite, k.Public)
		must(err)
		priv, err := encoding.ScalarToStringHex(suite, k.Private)
		must(err)
		addr := network.NewAddress(network.PlainTCP, fmt.Sprintf("127.0.0.1:%d", c.ports[i]))
		servers = append(servers, app.NewServerToml(suite, k.Public, addr, fmt.Sprint("server ", i), nil))
		d := c.server(i)
		must(os.MkdirAll(d, 0755))
		conf := app.CothorityConfig{Suite: suite.String(), Public: pub, Private: priv, Address: addr, Description: fmt.Sprint("server ", i)}
		f, err := os.Create(filepath.Join(d, "private.toml"))
		must(err)
		must(toml.NewEncoder(f).Encode(conf))
		must(f.Close())
	}
	c.group = filepath.Join(dir, "group.toml")
	f, err := os.Create(c.group)
	must(err)
	must(toml.NewEncoder(f).Encode(app.NewGroupToml(servers...)))
	must(f.Close())
	return c, ls
}

func (c *c19Conf) server(i int) string { return filepath.Join(c.dir, fmt.Sprint("s", i)) }

func (c *c19Conf) secret() kyber.Scalar {
	s := suite.Scalar().Zero()
	for _, k := range c.keys {
		s.Add(s, k.Private)
	}
	return s
}

// c19Run is one run of the program.
type c19Run struct {
	args []string
	out  string
	rc   int
	hung bool
}

func (c *c19Conf) program(limit time.Duration, args ...string) c19Run {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Getenv("UNLYNX_BIN"), args...)
	cmd.Dir = c.dir
	cmd.Env = append(os.Environ(), "GOMAXPROCS=4", "DEBUG_COLOR=false")
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	err := cmd.Run()
	r := c19Run{args: args, out: out.String(), hung: ctx.Err() != nil}
	if err != nil {
		r.rc = -1
		if e, ok := err.(*exec.ExitError); ok {
			r.rc = e.ExitCode()
		}
	}
	return r
}

var c19Line = regexp.MustCompile(`(\d+) \) \[([^\]]*)\] -> \[([^\]]*)\]`)

func (r c19Run) printed() []sresult {
	var out []sresult
	for _, m := range c19Line.FindAllStringSubmatch(r.out, -1) {
		nums := func(s string) []int64 {
			var v []int64
			for _, f := range strings.Fields(s) {
				x, err := strconv.ParseInt(f, 10, 64)
				must(err)
				v = append(v, x)
			}
			return v
		}
		out = append(out, sresult{group: nums(m[2]), totals: nums(m[3])})
	}
	return out
}

// ---- recording servers

type recorder struct {
	conf  *c19Conf
	mu    sync.Mutex
	conns int
	creat []*servicesunlynx.SurveyCreationQuery
	bad   []string
	reply []sresult // nil: the creation is answered with an error
}

func newRecorder(t *T, n int) *recorder {
	conf, ls := newC19Conf(t, n)
	r := &recorder{conf: conf}
	up := websocket.Upgrader{CheckOrigin: func(*http.Request) bool { return true }}
	srv := &http.Server{
		ConnState: func(c net.Conn, s http.ConnState) {
			if s == http.StateNew {
				r.contact()
			}
		},
		Handler: http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
			ws, err := up.Upgrade(w, req, nil)
			if err != nil {
				return
			}
			defer ws.Close()
			for {
				_, buf, err := ws.ReadMessage()
				if err != nil {
					return
				}
				out, err := r.handle(req.URL.Path, buf)
				if err != nil {
					ws.WriteControl(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseProtocolError, err.Error()), time.Now().Add(time.Second))
					return
				}
				ws.WriteMessage(websocket.BinaryMessage, out)
			}
		}),
	}
	for _, l := range ls {
		go func(l net.Listener) {
			for {
				c, err := l.Accept()
				if err != nil {
					return
				}
				r.contact()
				c.Close()
			}
		}(l[0])
		go srv.Serve(l[1])
	}
	return r
}

func (r *recorder) contact() { r.mu.Lock(); r.conns++; r.mu.Unlock() }

func (r *recorder) handle(path string, buf []byte) ([]byte, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	switch filepath.Base(path) {
	case "SurveyCreationQuery":
		q := &servicesunlynx.SurveyCreationQuery{}
		if err := protobuf.DecodeWithConstructors(buf, q, network.DefaultConstructors(suite)); err != nil {
			r.bad = append(r.bad, err.Error())
			return nil, err
		}
		r.creat = append(r.creat, q)
		if r.reply == nil {
			return nil, fmt.Errorf("recorded")
		}
		return protobuf.Encode(&servicesunlynx.ServiceState{SurveyID: "recorded"})
	case "SurveyResultsQuery":
		q := &servicesunlynx.SurveyResultsQuery{}
		if err := protobuf.DecodeWithConstructors(buf, q, network.DefaultConstructors(suite)); err != nil || q.ClientPublic == nil {
			r.bad = append(r.bad, fmt.Sprint("results query: ", err))
			return nil, fmt.Errorf("bad results query")
		}
		if q.SurveyID != "recorded" {
			r.bad = append(r.bad, "results of another survey: "+string(q.SurveyID))
		}
		res := servicesunlynx.ServiceResult{}
		for _, l := range r.reply {
			res.Results = append(res.Results, libunlynx.FilteredResponse{
				GroupByEnc:            encVec(q.ClientPublic, l.group),
				AggregatingAttributes: encVec(q.ClientPublic, l.totals),
			})
		}
		return protobuf.Encode(&res)
	}
	r.bad = append(r.bad, "request "+path)
	return nil, fmt.Errorf("unknown request")
}

func (r *recorder) reset(reply []sresult) {
	r.mu.Lock()
	r.conns, r.creat, r.bad, r.reply = 0, nil, nil, reply
	r.mu.Unlock()
}

// ---- command lines

const (
	c19Good    = "well-formed" // documented form: has to run as written
	c19Either  = "unusual"     // may be refused
	c19Refused = "malformed"
)

type c19Line_ struct {
	kind  string // one of the above
	what  string // kind of damage
	q     *squery
	args  []string
	zeros string    // written before the where values
	strs  [4]string // sum, where, predicate, group by ("-": absent)
	extra []string
}

// list writes a list; spacing 0: as documented, 1: none, 2: irregular
func c19List(r *rand.Rand, el []string, spacing int) string {
	sep := func() string { return ", " }
	in := ""
	switch spacing {
	case 1:
		sep = func() string { return "," }
	case 2:
		sep = func() string { return "," + strings.Repeat(" ", r.Intn(4)) }
	case 3:
		sep = func() string {
			return []string{" ,", ",\t", " , ", ",\n", "\t,"}[r.Intn(5)]
		}
		in = " "
	}
	s := "{" + in
	for i, e := range el {
		if i > 0 {
			s += sep()
		}
		s += e
	}
	return s + in + "}"
}

func c19Name(r *rand.Rand, p string, i int) string {
	switch r.Intn(12) {
	case 0:
		return p + "0" + strconv.Itoa(i)
	case 1:
		return fmt.Sprintf("%s%d%d", p, i, r.Intn(1000000))
	}
	return fmt.Sprint(p, i)
}

// c19Query is a query of the documented kind.
func c19Query(r *rand.Rand, big bool) *squery {
	q := &squery{proofs: r.Intn(3) == 0, count: r.Intn(3) == 0}
	size := func(n int) int {
		if big {
			return 1 + r.Intn(60)
		}
		return r.Intn(n)
	}
	for i := size(4); i >= 0; i-- {
		q.sum = append(q.sum, c19Name(r, "s", i))
	}
	if q.count {
		q.sum[r.Intn(len(q.sum))] = "count"
	}
	nw := size(4)
	for i := 0; i < nw; i++ {
		q.where = append(q.where, c19Name(r, "w", i))
		v := r.Int63n(30)
		switch r.Intn(6) {
		case 0:
			v = r.Int63()
		case 1:
			v = 1<<63 - 1 - r.Int63n(2)
		case 2:
			v = r.Int63n(1 << 33)
		}
		q.whereVals = append(q.whereVals, v)
	}
	if nw > 0 {
		q.pred = randPred(r, nw, r.Intn(4), r.Intn(2) == 0)
		if r.Intn(4) == 0 && !strings.Contains(q.pred.String(), "!(") {
			q.predText = strings.Replace(q.pred.String(), " ", "", -1)
		}
	}
	for i := size(4); i > 0; i-- {
		q.groupBy = append(q.groupBy, c19Name(r, "g", i))
	}
	return q
}

func (l *c19Line_) write(r *rand.Rand, spacing int) {
	q := l.q
	l.strs = [4]string{c19List(r, q.sum, spacing), "-", "-", "-"}
	if len(q.where) > 0 {
		var el []string
		for i, w := range q.where {
			el = append(el, w, l.zeros+fmt.Sprint(q.whereVals[i]))
		}
		l.strs[1] = c19List(r, el, spacing)
		l.strs[2] = q.text()
	}
	if len(q.groupBy) > 0 {
		l.strs[3] = c19List(r, q.groupBy, spacing)
	}
}

var c19Flags = [4][2]string{{"-s", "--sum"}, {"-w", "--where"}, {"-p", "--predicate"}, {"-g", "--groupBy"}}

func (l *c19Line_) finish(r *rand.Rand, group string) {
	var parts [][]string
	for i, s := range l.strs {
		if s == "-" {
			if r.Intn(4) == 0 { // as good as absent
				parts = append(parts, []string{c19Flags[i][1], ""})
			}
			continue
		}
		f := c19Flags[i][r.Intn(2)]
		if r.Intn(3) == 0 {
			parts = append(parts, []string{f + "=" + s})
		} else {
			parts = append(parts, []string{f, s})
		}
	}
	if l.q.count {
		parts = append(parts, []string{[]string{"-c", "--count"}[r.Intn(2)]})
	}
	if l.q.proofs {
		parts = append(parts, []string{"--proofs"})
	}
	parts = append(parts, []string{[]string{"-f", "--file"}[r.Intn(2)], group})
	r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	l.args = []string{"-d", "1", []string{"run", "r"}[r.Intn(2)]}
	at := -1
	if l.extra != nil {
		at = r.Intn(len(parts) + 1)
	}
	for i, p := range parts {
		if i == at {
			l.args = append(l.args, l.extra...)
		}
		l.args = append(l.args, p...)
	}
	if at == len(parts) {
		l.args = append(l.args, l.extra...)
	}
}

var c19Damage = [4][]struct {
	what string
	f    func(s string, q *squery) string
}{
	{ // sum
		{"missing", func(s string, q *squery) string { return "" }},
		{"no braces", func(s string, q *squery) string { return strings.Trim(s, "{}") }},
		{"no opening brace", func(s string, q *squery) string { return s[1:] }},
		{"no closing brace", func(s string, q *squery) string { return s[:len(s)-1] }},
		{"empty list", func(s string, q *squery) string { return "{}" }},
		{"trailing comma", func(s string, q *squery) string { return s[:len(s)-1] + ",}" }},
		{"leading comma", func(s string, q *squery) string { return "{," + s[1:] }},
		{"double comma", func(s string, q *squery) string { return s[:len(s)-1] + ",,s1}" }},
		{"no comma", func(s string, q *squery) string { return s[:len(s)-1] + " s1}" }},
		{"semicolon", func(s string, q *squery) string { return s[:len(s)-1] + "; s1}" }},
		{"after", func(s string, q *squery) string { return s + "s1" }},
		{"after2", func(s string, q *squery) string { return s + ", s1" }},
		{"before", func(s string, q *squery) string { return "s1, " + s }},
		{"twice", func(s string, q *squery) string { return s + s }},
		{"two lists", func(s string, q *squery) string { return s + "," + s }},
		{"nested", func(s string, q *squery) string { return "{" + s + "}" }},
		{"brackets", func(s string, q *squery) string { return "[" + strings.Trim(s, "{}") + "]" }},
		{"no number", func(s string, q *squery) string { return s[:len(s)-1] + ", s}" }},
		{"other attribute", func(s string, q *squery) string { return s[:len(s)-1] + ", w1}" }},
		{"other attribute first", func(s string, q *squery) string { return "{g1, " + s[1:] }},
		{"number only", func(s string, q *squery) string { return s[:len(s)-1] + ", 1}" }},
		{"negative", func(s string, q *squery) string { return s[:len(s)-1] + ", s-1}" }},
		{"fraction", func(s string, q *squery) string { return s[:len(s)-1] + ", s1.5}" }},
		{"split name", func(s string, q *squery) string { return s[:len(s)-1] + ", s 1}" }},
		{"upper case", func(s string, q *squery) string { return s[:len(s)-1] + ", S1}" }},
		{"letters", func(s string, q *squery) string { return s[:len(s)-1] + ", s1x}" }},
		{"words", func(s string, q *squery) string { return "SUM(s1)" }},
	},
	{ // where
		{"missing", func(s string, q *squery) string { return "" }},
		{"no braces", func(s string, q *squery) string { return strings.Trim(s, "{}") }},
		{"no opening brace", func(s string, q *squery) string { return s[1:] }},
		{"no closing brace", func(s string, q *squery) string { return s[:len(s)-1] }},
		{"no value", func(s string, q *squery) string { return s[:len(s)-1] + ", w9}" }},
		{"empty value", func(s string, q *squery) string { return s[:len(s)-1] + ", w9, }" }},
		{"trailing comma", func(s string, q *squery) string { return s[:len(s)-1] + ",}" }},
		{"value first", func(s string, q *squery) string { return "{1, " + s[1:] }},
		{"letters", func(s string, q *squery) string { return s[:len(s)-1] + ", w9, x}" }},
		{"digits then letters", func(s string, q *squery) string { return s[:len(s)-1] + ", w9, 1x}" }},
		{"two values", func(s string, q *squery) string { return s[:len(s)-1] + ", 1}" }},
		{"split value", func(s string, q *squery) string { return s[:len(s)-1] + " 1}" }},
		{"fraction", func(s string, q *squery) string { return s[:len(s)-1] + ", w9, 1.5}" }},
		{"too large", func(s string, q *squery) string { return s[:len(s)-1] + ", w9, 9223372036854775808}" }},
		{"far too large", func(s string, q *squery) string { return s[:len(s)-1] + ", w9, 99999999999999999999999}" }},
		{"other attribute", func(s string, q *squery) string { return s[:len(s)-1] + ", s1, 1}" }},
		{"equals", func(s string, q *squery) string { return s[:len(s)-1] + ", w9 = 1}" }},
		{"no comma", func(s string, q *squery) string { return s[:len(s)-1] + ", w9 1}" }},
		{"two lists", func(s string, q *squery) string { return s + ", {w9, 1}" }},
		{"twice", func(s string, q *squery) string { return s + s }},
		{"after", func(s string, q *squery) string { return s + " or so" }},
		{"before", func(s string, q *squery) string { return "where " + s }},
		{"names only", func(s string, q *squery) string { return "{w1, w2}" }},
	},
	{ // predicate
		{"missing", func(s string, q *squery) string { return "" }},
		{"incomplete", func(s string, q *squery) string { return s + " &&" }},
		{"starts with an operator", func(s string, q *squery) string { return "|| " + s }},
		{"no operand", func(s string, q *squery) string { return "v0 ==" }},
		{"unclosed", func(s string, q *squery) string { return "(" + s }},
		{"unopened", func(s string, q *squery) string { return s + ")" }},
		{"unknown parameter", func(s string, q *squery) string { return fmt.Sprintf("%s && v%d == v0", s, 2*len(q.where)) }},
		{"unknown parameter 2", func(s string, q *squery) string {
			return fmt.Sprintf("v%d == v%d || %s", 2*len(q.where), 2*len(q.where)+1, s)
		}},
		{"unknown name", func(s string, q *squery) string { return "w1 == v1" }},
		{"not a condition", func(s string, q *squery) string { return "v0" }},
		{"two words", func(s string, q *squery) string { return "v0 v1" }},
		{"assignment", func(s string, q *squery) string { return "v0 = v1" }},
		{"unknown function", func(s string, q *squery) string { return "f(v0, v1)" }},
		{"words", func(s string, q *squery) string { return "v0 equals v1" }},
		{"sum", func(s string, q *squery) string { return "v0 + v1" }},
		{"unclosed string", func(s string, q *squery) string { return s + " && v0 != 'a" }},
		{"number", func(s string, q *squery) string { return "17" }},
	},
	{ // group by
		{"no braces", func(s string, q *squery) string { return strings.Trim(s, "{}") }},
		{"no opening brace", func(s string, q *squery) string { return s[1:] }},
		{"no closing brace", func(s string, q *squery) string { return s[:len(s)-1] }},
		{"trailing comma", func(s string, q *squery) string { return s[:len(s)-1] + ",}" }},
		{"leading comma", func(s string, q *squery) string { return "{," + s[1:] }},
		{"no comma", func(s string, q *squery) string { return s[:len(s)-1] + " g1}" }},
		{"after", func(s string, q *squery) string { return s + "g1" }},
		{"before", func(s string, q *squery) string { return "g1, " + s }},
		{"twice", func(s string, q *squery) string { return s + s }},
		{"two lists", func(s string, q *squery) string { return s + "," + s }},
		{"nested", func(s string, q *squery) string { return "{" + s + "}" }},
		{"no number", func(s string, q *squery) string { return s[:len(s)-1] + ", g}" }},
		{"other attribute", func(s string, q *squery) string { return s[:len(s)-1] + ", s1}" }},
		{"number only", func(s string, q *squery) string { return s[:len(s)-1] + ", 1}" }},
		{"split name", func(s string, q *squery) string { return s[:len(s)-1] + ", g 1}" }},
		{"letters", func(s string, q *squery) string { return s[:len(s)-1] + ", g1x}" }},
		{"words", func(s string, q *squery) string { return "all" }},
	},
}

// c19Unusual: forms that may be refused, but not misread.
var c19Unusual = []struct {
	what string
	f    func(r *rand.Rand, l *c19Line_)
}{
	{"odd spacing", func(r *rand.Rand, l *c19Line_) { l.write(r, 3) }},
	{"count without the flag", func(r *rand.Rand, l *c19Line_) {
		l.q.count, l.q.sum = false, append([]string{"count"}, l.q.sum...)
		l.write(r, 0)
	}},
	{"the flag without count", func(r *rand.Rand, l *c19Line_) { l.q.count, l.q.sum = true, []string{"s1", "s2"}; l.write(r, 0) }},
	{"a name twice", func(r *rand.Rand, l *c19Line_) { l.q.sum = append(l.q.sum, l.q.sum[0]); l.write(r, 0) }},
	{"an argument too many", func(r *rand.Rand, l *c19Line_) { l.extra = []string{[]string{"s1", "all", "}", "v1"}[r.Intn(4)]} }},
	{"more in the predicate", func(r *rand.Rand, l *c19Line_) {
		if len(l.q.where) > 0 {
			l.q.predText = []string{"true", "v0 == v1 || true", "v0 in (v1, v1)", "v0 < v1", "\tv0==v1 ", "v0 == v1 ? true : false", "v0 =~ v1"}[r.Intn(7)]
			l.write(r, 0)
		}
	}},
	{"leading zeros", func(r *rand.Rand, l *c19Line_) {
		if len(l.q.where) > 0 {
			for i := range l.q.whereVals {
				l.q.whereVals[i] = int64(10 + r.Intn(90))
			}
			l.q.whereVals[0] = int64(10 + r.Intn(8))
			l.zeros = []string{"0", "00"}[r.Intn(2)]
			l.write(r, 0)
		}
	}},
	{"where value below zero", func(r *rand.Rand, l *c19Line_) {
		if len(l.q.where) > 0 {
			l.q.whereVals[0] = -l.q.whereVals[0]
			l.write(r, 0)
		}
	}},
}

// ---- judging the recorded query

func c19Same(a, b []string) bool {
	return len(a) == len(b) && strings.Join(a, "\x00") == strings.Join(b, "\x00")
}

func (r *recorder) judge(t *T, l *c19Line_, run c19Run) {
	r.mu.Lock()
	defer r.mu.Unlock()
	cmd := fmt.Sprintf("%q", l.args)
	key := l.kind
	sent := len(r.creat) > 0
	t.Seen("forms", l.kind+" "+l.what)
	if run.hung {
		t.Fail(key, "%s never ends", cmd)
		return
	}
	if len(r.bad) > 0 {
		t.Fail(key, "%s: the server cannot use what it receives: %v", cmd, r.bad)
		return
	}
	if l.kind == c19Refused {
		t.Check(r.conns == 0 && run.rc != 0, "malformed", "%s (%s) is not refused before a server is contacted: %d connections, exit %d, %d queries sent", cmd, l.what, r.conns, run.rc, len(r.creat))
		t.Count("malformed_refused", 1)
		t.Nontrivial("%s", cmd)
		return
	}
	if !sent {
		t.Check(l.kind != c19Good, key, "%s (%s) is refused: exit %d: %s", cmd, l.what, run.rc, tail(run.out, 300))
		t.Check(run.rc != 0, key, "%s (%s): nothing is sent and no error is given", cmd, l.what)
		t.Check(r.conns == 0 || l.kind == c19Good, key, "%s (%s) is refused after a server was contacted", cmd, l.what)
		t.Count("unusual_refused", 1)
		t.Nontrivial("%s", cmd)
		return
	}
	t.Nontrivial("%s", cmd)
	t.Count("queries_recorded", 1)
	if len(r.creat) > 1 {
		t.Fail(key, "%s creates %d surveys", cmd, len(r.creat))
	}
	q, w := r.creat[0], l.q
	t.Check(c19Same(q.Sum, w.sum), key, "%s asks for the sums %q", cmd, q.Sum)
	t.Check(q.Count == w.count, key, "%s asks with count=%v", cmd, q.Count)
	t.Check(c19Same(q.GroupBy, w.groupBy), key, "%s groups by %q", cmd, q.GroupBy)
	t.Check(q.Predicate == w.text(), key, "%s has the predicate %q", cmd, q.Predicate)
	t.Check(q.Proofs == w.proofs, key, "%s asks with proofs=%v", cmd, q.Proofs)
	t.Check(q.AppFlag, key, "%s does not ask over the servers' data", cmd)
	if len(q.Where) != len(w.where) {
		t.Fail(key, "%s has %d where values", cmd, len(q.Where))
	} else {
		for i, a := range q.Where {
			v := suite.Point().Mul(suite.Scalar().SetInt64(w.whereVals[i]), nil)
			t.Check(a.Name == w.where[i], key, "%s: where attribute %d is %q", cmd, i, a.Name)
			t.Check(a.Value.K != nil && a.Value.C != nil && suite.Point().Sub(a.Value.C, suite.Point().Mul(r.conf.secret(), a.Value.K)).Equal(v), key, "%s: where value %d is not encrypted as written under the servers' key", cmd, i)
			t.Count("where_values_opened", 1)
		}
	}
	ok := len(q.Roster.List) == r.conf.n
	for i := 0; ok && i < r.conf.n; i++ {
		ok = q.Roster.List[i].Public.Equal(r.conf.keys[i].Public) && q.MapDPs[q.Roster.List[i].String()] == 1
	}
	t.Check(ok && len(q.MapDPs) == r.conf.n, key, "%s is not asked to the servers of the group file", cmd)
	if r.reply == nil {
		t.Check(run.rc != 0, key, "%s: the server answers with an error, the program with exit 0", cmd)
		return
	}
	t.Check(run.rc == 0, key, "%s: exit %d although the server answers: %s", cmd, run.rc, tail(run.out, 300))
	got := run.printed()
	t.Check(resultString(got) == resultString(r.reply), key, "%s: the server answers %s, the program prints %s", cmd, resultString(r.reply), resultString(got))
	t.Count("answers_printed", 1)
}

func c19Recorded(n, lines int, kind string, pos int) func(t *T) {
	return func(t *T) {
		rec := newRecorder(t, n)
		defer func() { must(os.RemoveAll(rec.conf.dir)) }()
		for i := 0; i < lines; i++ {
			l := &c19Line_{kind: kind, q: c19Query(t.R, kind == c19Good && t.R.Intn(6) == 0)}
			l.write(t.R, 0)
			switch kind {
			case c19Good:
				l.write(t.R, t.R.Intn(3))
			case c19Either:
				u := c19Unusual[i%len(c19Unusual)]
				l.what = u.what
				u.f(t.R, l)
			case c19Refused:
				l.q = c19Query(t.R, false)
				for pos > 0 && (len(l.q.where) == 0 || len(l.q.groupBy) == 0) {
					l.q = c19Query(t.R, false)
				}
				l.write(t.R, t.R.Intn(3))
				d := c19Damage[pos][i%len(c19Damage[pos])]
				l.what = fmt.Sprint(c19Flags[pos][1], " ", d.what)
				l.strs[pos] = d.f(l.strs[pos], l.q)
			}
			l.finish(t.R, rec.conf.group)
			var reply []sresult
			if t.R.Intn(4) > 0 {
				reply = []sresult{}
				for k := t.R.Intn(4); k > 0; k-- {
					reply = append(reply, sresult{randInts(t.R, len(l.q.groupBy), 30), randInts(t.R, len(l.q.sum), 3000)})
				}
			}
			rec.reset(reply)
			run := rec.conf.program(60*time.Second, l.args...)
			rec.judge(t, l, run)
			if i == 0 {
				t.Sample("%s %s: %q -> exit %d, %d connections", l.kind, l.what, l.args, run.rc, rec.conns)
			}
		}
	}
}

func c19GroupFiles(t *T) {
	rec := newRecorder(t, 2)
	defer func() { must(os.RemoveAll(rec.conf.dir)) }()
	good, err := ioutil.ReadFile(rec.conf.group)
	must(err)
	for name, content := range map[string]string{
		"empty": "", "no servers": "[[other]]\n", "not toml": "{{{", "damaged key": strings.Replace(string(good), "Public = \"", "Public = \"zz", 1),
	} {
		f := filepath.Join(rec.conf.dir, "bad.toml")
		must(ioutil.WriteFile(f, []byte(content), 0644))
		c19NoGroup(t, rec, name, f)
	}
	c19NoGroup(t, rec, "missing", filepath.Join(rec.conf.dir, "none.toml"))
	c19NoGroup(t, rec, "directory", rec.conf.dir)
}

func c19NoGroup(t *T, rec *recorder, what, file string) {
	rec.reset(nil)
	run := rec.conf.program(60*time.Second, "-d", "1", "run", "-f", file, "-s", "{s1}", "-g", "{g1}")
	rec.mu.Lock()
	defer rec.mu.Unlock()
	t.Seen("forms", "group file "+what)
	t.Nontrivial("group file %s", what)
	t.Check(!run.hung && run.rc != 0 && len(rec.creat) == 0, "group-file", "a query with a group file that is %s is not refused: exit %d, %d queries sent", what, run.rc, len(rec.creat))
}

// ---- real servers

func c19Real(n, queries int) func(t *T) {
	return func(t *T) {
		conf, ls := newC19Conf(t, n)
		defer func() { must(os.RemoveAll(conf.dir)) }()
		for _, l := range ls {
			l[0].Close()
			l[1].Close()
		}
		// the servers' data: attributes split at the same place everywhere
		all := surveyShape{sums: 3, where: 3, groups: 3}.query(t.R)
		data := map[string][]libunlynx.DpClearResponse{}
		var subs []submission
		cut := [3]int{t.R.Intn(4), t.R.Intn(4), t.R.Intn(4)}
		for i := 0; i < n; i++ {
			var rows []libunlynx.DpClearResponse
			for k := t.R.Intn(7); k >= 0; k-- {
				d := randResponse(t.R, all, "enc", 2, 20, false)
				for j := 0; j < 3; j++ {
					move := func(p string, from, to map[string]int64, c int) {
						name := fmt.Sprint(p, j)
						if j < c {
							to[name] = from[name]
							delete(from, name)
						}
					}
					move("g", d.GroupByEnc, d.GroupByClear, cut[0])
					move("w", d.WhereEnc, d.WhereClear, cut[1])
					move("s", d.AggregatingAttributesEnc, d.AggregatingAttributesClear, cut[2])
				}
				rows = append(rows, d)
			}
			data[fmt.Sprint(i)] = rows
			subs = append(subs, submission{server: i, resps: rows})
		}
		runtime.LockOSThread() // the servers end with the thread that starts them
		var procs []*exec.Cmd
		defer func() {
			for _, p := range procs {
				p.Process.Kill()
				p.Wait()
			}
		}()
		for i := 0; i < n; i++ {
			must(dataunlynx.WriteDataToFile(filepath.Join(conf.server(i), "unlynx_test_data.txt"), data))
			cmd := exec.Command(os.Getenv("UNLYNX_BIN"), "server", "-c", "private.toml")
			cmd.Dir = conf.server(i)
			cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "CONODE_SERVICE_PATH="+conf.server(i))
			cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
			f, err := os.Create(filepath.Join(conf.server(i), "log"))
			must(err)
			cmd.Stdout, cmd.Stderr = f, f
			must(cmd.Start())
			f.Close()
			procs = append(procs, cmd)
		}
		for i, p := range conf.ports {
			for _, port := range []int{p, p + 1} {
				up := false
				for k := 0; k < 300 && !up; k++ {
					if c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", port), time.Second); err == nil {
						c.Close()
						up = true
					} else {
						time.Sleep(100 * time.Millisecond)
					}
				}
				if !up {
					b, _ := ioutil.ReadFile(filepath.Join(conf.server(i), "log"))
					panic("server does not start: " + trim(string(b), 500))
				}
			}
		}
		for i := 0; i < queries; i++ {
			q := &squery{proofs: t.R.Intn(4) == 0, count: t.R.Intn(3) == 0}
			pick := func(p string, min int) []string {
				var out []string
				for _, k := range t.R.Perm(3)[:min+t.R.Intn(4-min)] {
					out = append(out, fmt.Sprint(p, k))
				}
				return out
			}
			q.sum = pick("s", 1)
			if q.count {
				k := t.R.Intn(len(q.sum) + 1)
				q.sum = append(q.sum[:k:k], append([]string{"count"}, q.sum[k:]...)...)
			}
			if i%3 > 0 {
				q.where = pick("w", 1)
				for range q.where {
					q.whereVals = append(q.whereVals, t.R.Int63n(3))
				}
				q.pred = randPred(t.R, len(q.where), t.R.Intn(3), true)
			}
			if t.R.Intn(5) > 0 {
				q.groupBy = pick("g", 1)
			}
			l := &c19Line_{kind: c19Good, q: q}
			l.write(t.R, t.R.Intn(3))
			l.finish(t.R, conf.group)
			run := conf.program(90*time.Second, l.args...)
			if run.hung {
				// servers that connect to each other at the same moment can lose
				// a protocol (see connectAll): now they are connected
				t.Count("real_queries_repeated", 1)
				run = conf.program(90*time.Second, l.args...)
			}
			want := q.answer(subs)
			got := run.printed()
			t.Seen("servers", fmt.Sprint(n))
			t.Seen("queries", q.String())
			t.Count("real_queries", 1)
			t.Nontrivial("%q over %d servers", l.args, n)
			if run.hung || run.rc != 0 {
				t.Fail("real", "%q over %d servers: %s", l.args, n, tail(run.out, 400))
				continue
			}
			t.Check(c19Answer(want, got), "real", "%q over %d servers and data %s: prints %s, the answer is %s", l.args, n, trim(subsString(subs), 1500), resultString(got), answerString(want))
			if i == 0 {
				t.Sample("%q over %d servers, %d rows -> %s", l.args, n, len(localRowsOf(subs)), trim(answerString(want), 200))
			}
		}
	}
}

func tail(s string, n int) string {
	s = strings.TrimSpace(s)
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

func localRowsOf(subs []submission) (out []libunlynx.DpClearResponse) {
	for _, s := range subs {
		out = append(out, s.resps...)
	}
	return
}

func c19Answer(want map[string][]int64, got []sresult) bool {
	var l []string
	for _, r := range got {
		l = append(l, fmt.Sprint(fmt.Sprint(r.group), "=", r.totals))
	}
	sort.Strings(l)
	return strings.Join(l, " ") == answerString(want)
}

func c19Cases(tier string, seed int64) []Case {
	var out []Case
	mult, real := 1, 2
	if tier == "thorough" {
		mult, real = 8, 10
	}
	for k := 0; k < mult; k++ {
		for n := 1; n <= 3; n++ {
			out = append(out, Case{Name: fmt.Sprintf("well-formed-%d-%d", n, k), Cost: 2, Run: c19Recorded(n, 30, c19Good, 0)})
		}
		out = append(out, Case{Name: fmt.Sprint("unusual-", k), Cost: 2, Run: c19Recorded(1+k%3, 4*len(c19Unusual), c19Either, 0)})
		for p := range c19Damage {
			out = append(out, Case{Name: fmt.Sprintf("malformed%s-%d", c19Flags[p][1], k), Cost: 2, Run: c19Recorded(1+k%3, len(c19Damage[p]), c19Refused, p)})
		}
	}
	out = append(out, Case{Name: "group-files", Cost: 1, Run: c19GroupFiles})
	for k := 0; k < real; k++ {
		for n := 1; n <= 4; n++ {
			out = append(out, Case{Name: fmt.Sprintf("real-%d-%d", n, k), Cost: 8, Procs: 4, Run: c19Real(n, 5)})
		}
	}
	return out
}
