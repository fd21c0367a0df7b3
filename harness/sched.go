package main

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"time"

	"go.dedis.ch/onet/v3"
)

// sched perturbs the order in which protocol messages leave their senders and
// records it: the number of distinct orders is reported as evidence.
type sched struct {
	mu    sync.Mutex
	r     *rand.Rand
	mode  string
	max   time.Duration
	order []string
	msgs  int64
	slow  int // roster index of a slow sender
	also  WireHook
}

var schedModes = []string{"none", "jitter", "slow-node", "big-late", "coarse"}

// newSched installs the hook; call done afterwards.
func newSched(r *rand.Rand, mode string, also WireHook) *sched {
	s := &sched{r: rand.New(rand.NewSource(r.Int63())), mode: mode, max: 4 * time.Millisecond, slow: r.Intn(8), also: also}
	setWireHook(s.hook)
	return s
}

func (s *sched) hook(proto string, info *onet.OverlayMsg, msg interface{}, buf []byte) {
	if s.also != nil {
		s.also(proto, info, msg, buf)
	}
	from := info.TreeNodeInfo.From.TreeNodeID.String()
	s.mu.Lock()
	d := time.Duration(0)
	switch s.mode {
	case "jitter":
		d = time.Duration(s.r.Int63n(int64(s.max)))
	case "slow-node":
		if int(from[len(from)-1])%8 == s.slow {
			d = s.max * 3
		}
	case "big-late":
		// long messages leave late, so short ones of other nodes overtake them
		if len(buf) > 200 {
			d = time.Duration(s.r.Int63n(int64(s.max) * 3))
		}
	case "coarse":
		if s.r.Intn(4) == 0 {
			d = time.Duration(s.r.Int63n(int64(s.max) * 5))
		}
	}
	s.mu.Unlock()
	if d > 0 {
		time.Sleep(d)
	}
	s.mu.Lock()
	s.order = append(s.order, fmt.Sprintf("%s>%s:%T", from[len(from)-4:], info.TreeNodeInfo.To.TreeNodeID.String()[32:], msg))
	s.msgs++
	s.mu.Unlock()
}

// done removes the hook and books what was seen.
func (s *sched) done(t *T) string {
	setWireHook(nil)
	s.mu.Lock()
	defer s.mu.Unlock()
	sig := strings.Join(s.order, " ")
	t.Count("messages_observed", s.msgs)
	if s.msgs > 0 {
		t.Seen("message_orders", sig)
	}
	return sig
}
