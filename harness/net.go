package main

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	libunlynx "github.com/ldsec/unlynx/lib"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/kyber/v3/util/random"
	"go.dedis.ch/onet/v3"
	"go.dedis.ch/onet/v3/network"
)

var suite = libunlynx.SuiTe

// ---- wire tap: a message proxy that behaves like onet's default one and
// shows every protocol message to a hook at the sender, before it leaves.

// WireMsg is what the tap puts on the wire.
type WireMsg struct {
	From, To *onet.Token
	Config   *onet.GenericConfig
	Type     network.MessageTypeID
	Buf      []byte
}

var wireMsgID = network.RegisterMessage(&WireMsg{})

// WireHook sees the message about to be sent; it may sleep (to perturb the
// schedule), inspect buf, or return a replacement payload.
type WireHook func(proto string, info *onet.OverlayMsg, msg interface{}, buf []byte)

var wireHook atomic.Value // WireHook

func setWireHook(h WireHook) { wireHook.Store(h) }

// tamperHook may change the message about to be sent (its own copy) and tells
// if it did.
type tamperHook func(proto string, info *onet.OverlayMsg, msg interface{}) bool

var tamperer atomic.Value // tamperHook

func setTamper(h tamperHook) { tamperer.Store(h) }

type tap struct{ name string }

func (d *tap) Wrap(msg interface{}, info *onet.OverlayMsg) (interface{}, error) {
	if msg != nil {
		buf, err := network.Marshal(msg)
		if err != nil {
			return nil, err
		}
		if h, ok := wireHook.Load().(WireHook); ok && h != nil {
			h(d.name, info, msg, buf)
		}
		if h, ok := tamperer.Load().(tamperHook); ok && h != nil {
			_, own, err := network.Unmarshal(buf, suite)
			if err != nil {
				return nil, err
			}
			if h(d.name, info, own) {
				if buf, err = network.Marshal(own); err != nil {
					return nil, err
				}
			}
		}
		return &WireMsg{From: info.TreeNodeInfo.From, To: info.TreeNodeInfo.To, Config: info.Config, Type: network.MessageType(msg), Buf: buf}, nil
	}
	switch {
	case info.RequestTree != nil:
		return info.RequestTree, nil
	case info.ResponseTree != nil:
		return info.ResponseTree, nil
	case info.TreeMarshal != nil:
		return info.TreeMarshal, nil
	case info.RequestRoster != nil:
		return info.RequestRoster, nil
	case info.Roster != nil:
		return info.Roster, nil
	}
	panic("tap: nothing to wrap")
}

func (d *tap) Unwrap(msg interface{}) (interface{}, *onet.OverlayMsg, error) {
	out := new(onet.OverlayMsg)
	switch m := msg.(type) {
	case *WireMsg:
		_, pm, err := network.Unmarshal(m.Buf, suite)
		if err != nil {
			return nil, nil, err
		}
		out.TreeNodeInfo = &onet.TreeNodeInfo{To: m.To, From: m.From}
		out.Config = m.Config
		return pm, out, nil
	case *onet.RequestTree:
		out.RequestTree = m
	case *onet.ResponseTree:
		out.ResponseTree = m
	case *onet.TreeMarshal:
		out.TreeMarshal = m
	case *onet.RequestRoster:
		out.RequestRoster = m
	case *onet.Roster:
		out.Roster = m
	default:
		return nil, nil, fmt.Errorf("tap: unknown message %T", msg)
	}
	return nil, out, nil
}

func (d *tap) PacketType() network.MessageTypeID { return wireMsgID }
func (d *tap) Name() string                      { return d.name }

func tapProtocol(name string) {
	onet.RegisterMessageProxy(func() onet.MessageProxy { return &tap{name} })
}

// ---- protocol wrappers: harness protocols whose constructor is the
// repository's, followed by the case's own set-up of the instance.

type setupFn func(tni *onet.TreeNodeInstance, pi onet.ProtocolInstance)

var setups sync.Map // proto name + tree id -> setupFn

func regWrapped(name string, base func(*onet.TreeNodeInstance) (onet.ProtocolInstance, error)) {
	full := "V" + name
	must2(onet.GlobalProtocolRegister(full, func(tni *onet.TreeNodeInstance) (onet.ProtocolInstance, error) {
		pi, err := base(tni)
		if err != nil {
			return pi, err
		}
		if f, ok := setups.Load(full + tni.Tree().ID.String()); ok {
			f.(setupFn)(tni, pi)
		}
		return pi, nil
	}))
	tapProtocol(full)
}

func must2(_ interface{}, err error) { must(err) }

// ---- clusters

type cluster struct {
	local   *onet.LocalTest
	servers []*onet.Server
}

var clusters = map[int]*cluster{}

// getCluster returns n servers, kept alive for the life of the worker, as a
// deployment's would be.
func getCluster(n int) *cluster {
	if c := clusters[n]; c != nil {
		return c
	}
	c := &cluster{local: onet.NewLocalTest(suite)}
	c.local.Check = onet.CheckNone
	c.servers = c.local.GenServers(n)
	connectAll(c.servers)
	clusters[n] = c
	return c
}

// HelloMsg is what servers send each other in connectAll.
type HelloMsg struct{ N int }

var helloMsgID = network.RegisterMessage(&HelloMsg{})

// connectAll connects the servers with one another, one pair after the other.
// Two servers that connect to each other at the same moment end up with two
// connections, over which onet does not keep the order of the messages of one
// protocol instance: under load a protocol message can then overtake the
// configuration sent ahead of it, and the survey never ends. That is a matter
// of the network layer, which no property here is about.
func connectAll(servers []*onet.Server) {
	got := make(chan int, len(servers)*len(servers))
	for _, s := range servers {
		s.RegisterProcessorFunc(helloMsgID, func(e *network.Envelope) error {
			got <- e.Msg.(*HelloMsg).N
			return nil
		})
	}
	for i := range servers {
		for j := i + 1; j < len(servers); j++ {
			if _, err := servers[i].Send(servers[j].ServerIdentity, &HelloMsg{N: i*len(servers) + j}); err != nil {
				panic(err)
			}
			<-got
		}
	}
}

// roster returns a roster of the cluster's servers in the given order (nil:
// natural).
func (c *cluster) roster(perm []int) *onet.Roster {
	var ids []*network.ServerIdentity
	for i := range c.servers {
		k := i
		if perm != nil {
			k = perm[i]
		}
		ids = append(ids, c.servers[k].ServerIdentity)
	}
	ro := onet.NewRoster(ids)
	secretOf.Store(ps(ro.Aggregate), c.secret())
	return ro
}

// secret is the sum of the servers' private keys.
func (c *cluster) secret() kyber.Scalar {
	s := suite.Scalar().Zero()
	for _, sv := range c.servers {
		s.Add(s, c.local.GetPrivate(sv))
	}
	return s
}

// treeShape builds a tree over the whole roster. kinds: binary, star, line,
// random, nary3.
func (c *cluster) tree(ro *onet.Roster, kind string, r *rand.Rand) *onet.Tree {
	n := len(ro.List)
	nodes := make([]*onet.TreeNode, n)
	for i, si := range ro.List {
		nodes[i] = onet.NewTreeNode(i, si)
	}
	var t *onet.Tree
	switch kind {
	case "binary":
		t = ro.GenerateBinaryTree()
	case "star":
		for i := 1; i < n; i++ {
			nodes[0].AddChild(nodes[i])
		}
		t = onet.NewTree(ro, nodes[0])
	case "line":
		for i := 1; i < n; i++ {
			nodes[i-1].AddChild(nodes[i])
		}
		t = onet.NewTree(ro, nodes[0])
	case "nary3":
		t = ro.GenerateNaryTree(3)
	case "random":
		for i := 1; i < n; i++ {
			nodes[r.Intn(i)].AddChild(nodes[i])
		}
		t = onet.NewTree(ro, nodes[0])
	default:
		panic("tree kind " + kind)
	}
	c.local.Trees[t.ID] = t
	c.local.Overlays[t.Root.ServerIdentity.ID].RegisterTree(t)
	return t
}

// distinctTree builds a tree whose ID is not in used, permuting the roster.
func (c *cluster) distinctTree(kind string, r *rand.Rand, used map[onet.TreeID]bool) (*onet.Roster, *onet.Tree) {
	for i := 0; ; i++ {
		ro := c.roster(r.Perm(len(c.servers)))
		tr := c.tree(ro, kind, r)
		if !used[tr.ID] {
			used[tr.ID] = true
			return ro, tr
		}
		if i > 50 {
			kind = treeKinds[r.Intn(len(treeKinds))]
		}
		if i > 500 {
			panic("no distinct tree left")
		}
	}
}

var treeKinds = []string{"binary", "star", "line", "random", "nary3"}

// start creates the wrapped protocol on the tree, with the set-up applied at
// every node. The caller sets root-only fields and calls Start.
func (c *cluster) create(name string, t *onet.Tree, f setupFn) onet.ProtocolInstance {
	full := "V" + name
	setups.Store(full+t.ID.String(), f)
	pi, err := c.local.CreateProtocol(full, t)
	must(err)
	return pi
}

// ---- group helpers, written against the group itself and not against the
// code under test

func newKey() (kyber.Scalar, kyber.Point) {
	s := suite.Scalar().Pick(random.New())
	p := suite.Point().Mul(s, nil)
	secretOf.Store(ps(p), s.Clone())
	return s, p
}

// secretOf knows the secrets of the keys the harness made, to make ciphertexts of special form.
var secretOf sync.Map

// specialEnc encrypts m with randomness chosen so that C is the neutral element, the base point, K or -K.
func specialEnc(sk kyber.Scalar, m int64, form int) libunlynx.CipherText {
	one, ms := suite.Scalar().One(), suite.Scalar().SetInt64(m)
	num, den := suite.Scalar(), suite.Scalar()
	switch form % 4 {
	case 0:
		num, den = num.Neg(ms), sk
	case 1:
		num, den = num.Sub(one, ms), sk
	case 2:
		num, den = ms, den.Sub(one, sk)
	default:
		num, den = num.Neg(ms), den.Add(one, sk)
	}
	x := suite.Scalar().Mul(num, suite.Scalar().Inv(den))
	c := suite.Scalar().Add(ms, suite.Scalar().Mul(x, sk))
	return libunlynx.CipherText{K: suite.Point().Mul(x, nil), C: suite.Point().Mul(c, nil)}
}

func pt(m int64) kyber.Point {
	return suite.Point().Mul(suite.Scalar().SetInt64(m), nil)
}

// openPoint returns C - sk*K.
func openPoint(sk kyber.Scalar, ct *libunlynx.CipherText) kyber.Point {
	return suite.Point().Sub(ct.C, suite.Point().Mul(sk, ct.K))
}

func isEnc(sk kyber.Scalar, ct *libunlynx.CipherText, m int64) bool {
	if ct.K == nil || ct.C == nil {
		return false
	}
	return openPoint(sk, ct).Equal(pt(m))
}

func encWith(pub kyber.Point, m int64) libunlynx.CipherText {
	r := suite.Scalar().Pick(random.New())
	return libunlynx.CipherText{K: suite.Point().Mul(r, nil), C: suite.Point().Add(pt(m), suite.Point().Mul(r, pub))}
}

func encVec(pub kyber.Point, ms []int64) libunlynx.CipherVector {
	v := make(libunlynx.CipherVector, len(ms))
	for i, m := range ms {
		v[i] = encWith(pub, m)
	}
	return v
}

// encVec encrypts as the function does, now and then with what a peer or a
// caller may send as well: the ciphertext used for the same value before
// (copied or shared), trivial encryptions, small randomness.
func (t *T) encVec(pub kyber.Point, ms []int64) libunlynx.CipherVector {
	if t.cts == nil {
		t.cts = map[string]libunlynx.CipherText{}
	}
	mode := t.R.Intn(8)
	pre := ps(pub)
	sk, known := secretOf.Load(pre)
	v := make(libunlynx.CipherVector, len(ms))
	for i, m := range ms {
		id := fmt.Sprint(pre, m)
		old, ok := t.cts[id]
		k := t.R.Intn(40)
		switch {
		case ok && (k == 0 || mode == 0):
			v[i] = cloneCT(old)
		case ok && k == 1:
			v[i] = old
		case k == 2 || mode == 1 && k < 20:
			v[i] = libunlynx.CipherText{K: suite.Point().Null(), C: pt(m)}
		case k == 3:
			r := suite.Scalar().SetInt64(int64(t.R.Intn(3) - 1))
			v[i] = libunlynx.CipherText{K: suite.Point().Mul(r, nil), C: suite.Point().Add(pt(m), suite.Point().Mul(r, pub))}
		case k == 4 && known:
			v[i] = specialEnc(sk.(kyber.Scalar), m, t.R.Intn(4))
			t.Count("ciphertexts with a neutral, base or equal component", 1)
		default:
			v[i] = encWith(pub, m)
		}
		t.cts[id] = v[i]
	}
	return v
}

func (t *T) encMat(pk kyber.Point, m [][]int64) []libunlynx.CipherVector {
	out := make([]libunlynx.CipherVector, len(m))
	for i := range m {
		out[i] = t.encVec(pk, m[i])
	}
	return out
}

const dlogRange = 20000

var dlogOnce sync.Once
var dlogTab map[string]int64

// dlog is the oracle's own discrete logarithm (|m| <= dlogRange).
func dlog(p kyber.Point) (int64, bool) {
	dlogOnce.Do(func() {
		dlogTab = map[string]int64{}
		b := suite.Point().Base()
		pos, neg := suite.Point().Null(), suite.Point().Null()
		for i := int64(0); i <= dlogRange; i++ {
			dlogTab[ps(pos)] = i
			dlogTab[ps(neg)] = -i
			pos = suite.Point().Add(pos, b)
			neg = suite.Point().Sub(neg, b)
		}
	})
	v, ok := dlogTab[ps(p)]
	return v, ok
}

func ps(p kyber.Point) string {
	b, err := p.MarshalBinary()
	must(err)
	return string(b)
}

const badPlain = int64(-1 << 62)

// open decrypts with the oracle's own arithmetic; badPlain when unreadable.
func open(sk kyber.Scalar, ct *libunlynx.CipherText) int64 {
	if ct.K == nil || ct.C == nil {
		return badPlain
	}
	if v, ok := dlog(openPoint(sk, ct)); ok {
		return v
	}
	return badPlain
}

func openVec(sk kyber.Scalar, v libunlynx.CipherVector) []int64 {
	out := make([]int64, len(v))
	for i := range v {
		out[i] = open(sk, &v[i])
	}
	return out
}

// ctBytes is the oracle's own canonical rendering of a ciphertext.
func ctBytes(c *libunlynx.CipherText) string {
	k, cc := "nil", "nil"
	if c.K != nil {
		k = ps(c.K)
	}
	if c.C != nil {
		cc = ps(c.C)
	}
	return k + cc
}

func vecBytes(v libunlynx.CipherVector) string {
	var s strings.Builder
	for i := range v {
		s.WriteString(ctBytes(&v[i]))
	}
	return s.String()
}

func cloneCT(c libunlynx.CipherText) libunlynx.CipherText {
	return libunlynx.CipherText{K: c.K.Clone(), C: c.C.Clone()}
}

func cloneVec(v libunlynx.CipherVector) libunlynx.CipherVector {
	w := make(libunlynx.CipherVector, len(v))
	for i := range v {
		w[i] = cloneCT(v[i])
	}
	return w
}

func cloneMat(m []libunlynx.CipherVector) []libunlynx.CipherVector {
	w := make([]libunlynx.CipherVector, len(m))
	for i := range m {
		w[i] = cloneVec(m[i])
	}
	return w
}

func eqInts(a, b []int64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func randInts(r *rand.Rand, n int, lim int64) []int64 {
	out := make([]int64, n)
	for i := range out {
		out[i] = r.Int63n(lim)
	}
	return out
}

// settled waits until done holds, under mu: servers other than the root can
// still be making their proofs when the root has its result.
func settled(mu *sync.Mutex, done func() bool) {
	for k := 0; k < 3000; k++ {
		mu.Lock()
		ok := done()
		mu.Unlock()
		if ok {
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
}
