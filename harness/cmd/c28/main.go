// C28: callbacks of nodes
package main

import (
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/kit"
	"verif/nodem"

	"github.com/skycoin/cxo/node"
	"github.com/skycoin/cxo/skyobject/registry"
)

func main() {
	kit.Main("C28", kit.Opts{
		Rule: "networks of two to five nodes as those of C27, with callbacks that refuse roots, connections and subscriptions, that are slow or use the node; short time limits of filling, limits of heads, " +
			"objects lost by the owner, connections closed during filling; a monitor in every callback follows the state of each head and each connection; non-trivial if a filling was broken, or a root " +
			"was refused or replaced; distinct by the network and its history",
		Need: []string{"nodes", "received", "filled", "broken", "refused_roots", "replaced", "opened", "closed", "refused_connections", "broken_by_timeout", "broken_no_connections", "broken_by_heads_limit",
			"checked_complete", "restarted", "lost_objects", "out_of_order", "killed_connections"},
		MinCases: 40,
		Watchdog: 14 * time.Minute,
	}, run)
}

var own = map[string]bool{"received-old": true, "received-order": true, "outcome-unknown": true, "outcome-twice": true, "outcome-order": true, "filled-twice": true,
	"filled-order": true, "broken-no-reason": true, "broken-filled": true, "no-outcome": true, "opened-twice": true, "closed-not-opened": true, "closed-twice": true, "not-closed": true,
	"no-root": true, "other-root": true, "incomplete": true, "refused": true, "refused-subscription": true, "close-hang": true}

func run(k *kit.K) {
	var next int32 = -1
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := int(atomic.AddInt32(&next, 1)); i < k.N(800, 12000) && k.Bad() < 6; i = int(atomic.AddInt32(&next, 1)) {
				k.Within("hang", fmt.Sprint("network ", i), 6*time.Minute, func() { one(k, k.Rng("n", i), i) })
			}
		}()
	}
	wg.Wait()
}

var errConn = errors.New("no connections today")

type test struct {
	*nodem.Scenario
	k      *kit.K
	mx     sync.Mutex
	refuse map[*node.Conn]bool
	heads  bool // limit of heads
	slow   bool
	limit  time.Duration
}

func one(k *kit.K, r *rand.Rand, i int) {
	var t = &test{k: k, refuse: make(map[*node.Conn]bool)}
	var s = &nodem.Scenario{World: nodem.NewWorld(k, r, fmt.Sprint("network ", i))}
	t.Scenario = s
	t.heads = r.Intn(4) == 0
	t.slow = r.Intn(3) == 0
	t.limit = []time.Duration{0, 20 * time.Second, 20 * time.Second, 15 * time.Millisecond, 4 * time.Millisecond}[r.Intn(5)]
	s.C = nodem.Cfg{Max: 5, NoWait: true, Faults: r.Intn(2) == 0, Reject: r.Intn(2) == 0, Lose: r.Intn(3) == 0, Timeout: 3 * time.Second, Heads: 3, Wait: 500 * time.Millisecond, Gap: 1 + 19*r.Intn(2)}
	if s.C.Lose {
		s.C.Timeout = 400 * time.Millisecond
	}
	if r.Intn(2) == 0 {
		s.C.Max = 3
	}
	s.C.Shuffle = r.Intn(2) == 0
	s.C.Conf = t.conf
	s.C.Hook = t.hook
	if r.Intn(2) == 0 {
		s.C.During = t.kill
	}
	s.Keep = func(key string) bool { return own[key] }
	s.Run()
	t.refused()
	s.Close()
	var broken, refused, replaced int32
	for _, n := range s.Nodes {
		broken += atomic.LoadInt32(&n.Broken)
		refused += atomic.LoadInt32(&n.Rejected)
		replaced += atomic.LoadInt32(&n.Replaced)
		k.Count("received", int(atomic.LoadInt32(&n.Received)))
		k.Count("filled", int(atomic.LoadInt32(&n.Filled)))
		k.Count("opened", int(atomic.LoadInt32(&n.Opened)))
		k.Count("closed", int(atomic.LoadInt32(&n.Closed)))
	}
	var l = s.Log()
	k.Count("broken", int(broken))
	k.Count("refused_roots", int(refused))
	k.Count("replaced", int(replaced))
	k.Count("nodes", len(s.Nodes))
	k.Count("out_of_order", strings.Count(l, " out of order"))
	k.Count("restarted", strings.Count(l, " is restarted"))
	k.Count("lost_objects", strings.Count(l, " loses object"))
	k.Count("killed_connections", strings.Count(l, " kills "))
	var ls = strings.Split(l, "\n")
	for i := range ls {
		if len(ls[i]) > 7 {
			ls[i] = ls[i][7:]
		}
	}
	k.Case(broken+refused+replaced > 0, strings.Join(ls, "\n"))
}

func (t *test) conf(r *rand.Rand, c *node.Config) {
	c.MaxFillingTime = t.limit
	c.Config.MaxFillingParallel = r.Intn(12)
	if t.heads {
		c.MaxHeads = 1 + r.Intn(2)
	}
}

func (t *test) hook(i int, r *rand.Rand, o *nodem.Opt) {
	var mx sync.Mutex
	var dice = func(n int) bool {
		mx.Lock()
		defer mx.Unlock()
		return r.Intn(n) == 0
	}
	var nap = func() {
		if t.slow && dice(2) {
			mx.Lock()
			var d = time.Duration(r.Intn(8000)) * time.Microsecond
			mx.Unlock()
			time.Sleep(d)
		}
	}
	var use = func(n *nodem.N) { // the node, from a callback
		if t.slow && dice(6) {
			n.Feeds()
			n.Connections()
			for _, f := range t.Feeds {
				n.IsSharing(f.PK)
				n.ConnectionsOfFeed(f.PK)
			}
			n.Stat()
		}
	}
	o.Loose = t.heads
	var refuse = dice(3)
	o.OnConnect = func(c *node.Conn) error {
		nap()
		if refuse && dice(4) {
			t.k.Count("refused_connections", 1)
			t.mx.Lock()
			t.refuse[c] = true
			t.mx.Unlock()
			return errConn
		}
		return nil
	}
	o.OnFilled = func(n *nodem.N, r *registry.Root) {
		nap()
		for _, f := range t.Feeds {
			if f.PK != r.Pub {
				continue
			}
			if x := f.ByHash(r.Hash); x != nil && n.Node != nil {
				t.CheckRoot(n, f, x)
				t.k.Count("checked_complete", 1)
			}
		}
		use(n)
	}
	o.OnBreaks = func(n *nodem.N, r *registry.Root, err error) {
		nap()
		switch err {
		case node.ErrTimeout:
			t.k.Count("broken_by_timeout", 1)
		case node.ErrNoConnectionsToFillFrom:
			t.k.Count("broken_no_connections", 1)
		case node.ErrMaxHeadsLimit:
			t.k.Count("broken_by_heads_limit", 1)
		default:
			t.k.Count("broken_other", 1)
		}
		use(n)
	}
}

// refused connections are closed
func (t *test) refused() {
	nodem.Wait(5*time.Second, func() bool { return t.listed() == "" })
	if s := t.listed(); s != "" {
		t.Report("refused", "%s\n%s", s, t.CB())
	}
}

func (t *test) listed() string {
	for _, n := range t.Nodes {
		for _, c := range n.Connections() {
			t.mx.Lock()
			var bad = t.refuse[c]
			t.mx.Unlock()
			if bad {
				return fmt.Sprintf("%s: connection %s was refused by OnConnect, but it is listed", n.Name, c)
			}
		}
	}
	return ""
}

// connections are closed and created at random
func (t *test) kill(_ *nodem.Scenario, stop <-chan struct{}) {
	var r = t.k.Rng(t.Name, "kill")
	for i := 0; i < 25; i++ {
		select {
		case <-stop:
			return
		case <-time.After(time.Duration(r.Intn(12000)) * time.Microsecond):
		}
		t.Kill(r)
	}
}
