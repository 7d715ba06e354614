// C27: replication
package main

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/cxstore"
	"verif/kit"
	"verif/nodem"

	"github.com/skycoin/cxo/node"
	"github.com/skycoin/cxo/skyobject"
	"github.com/skycoin/skycoin/src/cipher"
)

func main() {
	kit.Main("C27", kit.Opts{
		Rule: "networks of two to six nodes (line, star, ring, full, random; TCP and UDP) with one to three feeds, every feed shared by a random connected part of the nodes; connecting, subscribing and publishing of " +
			"several heads go on at the same time; some roots are published out of order, some stores are slow; connections, subscriptions, shared feeds and whole nodes are dropped and restored; finally every sharing node has to have the newest root with every object, " +
			"nodes store nothing else; non-trivial with three nodes or more; distinct by the network and its history",
		Need: []string{"nodes", "tcp_links", "udp_links", "published", "filled", "replicated_roots", "early", "late", "restarted", "reconnected", "unsubscribed", "not_shared_for_a_while", "not_sharing_nodes",
			"several_hops", "several_heads", "small_caches", "slow_stores", "out_of_order"},
		MinCases: 40,
		Watchdog: 14 * time.Minute,
	}, run)
}

var own = map[string]bool{"received-old": false, "received-order": false, "outcome-unknown": false, "outcome-twice": false, "outcome-order": false, "filled-twice": false,
	"filled-order": false, "broken-no-reason": false, "broken-filled": false, "no-outcome": false, "opened-twice": false, "closed-not-opened": false, "closed-twice": false, "not-closed": false}

func run(k *kit.K) {
	var next int32 = -1
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := int(atomic.AddInt32(&next, 1)); i < k.N(320, 4000) && k.Bad() < 6; i = int(atomic.AddInt32(&next, 1)) {
				k.Within("hang", fmt.Sprint("network ", i), 6*time.Minute, func() { one(k, k.Rng("n", i), i) })
			}
		}()
	}
	wg.Wait()
}

func conf(r *rand.Rand, c *node.Config) {
	switch r.Intn(4) {
	case 0:
		c.Config.CacheMaxAmount = 0
	case 1:
		c.Config.CacheMaxAmount = 1 + r.Intn(12)
	}
	c.Config.CachePolicy = skyobject.CachePolicy(r.Intn(2))
	c.Config.MaxFillingParallel = r.Intn(12)
	if r.Intn(4) == 0 {
		c.MaxFillingTime = 0
	}
}

// reading of the store is slow, and filling is slow because of it
func slow(_ int, r *rand.Rand, o *nodem.Opt) {
	var max = 200 + r.Intn(3000)
	var mx sync.Mutex
	o.Store = cxstore.New()
	o.Store.Step = func(op string, _ cipher.SHA256) {
		mx.Lock()
		var d = r.Intn(max)
		var yes = op == "get" && r.Intn(3) == 0
		mx.Unlock()
		if yes {
			time.Sleep(time.Duration(d) * time.Microsecond)
		}
	}
}

func one(k *kit.K, r *rand.Rand, i int) {
	var s = &nodem.Scenario{World: nodem.NewWorld(k, r, fmt.Sprint("network ", i))}
	s.C = nodem.Cfg{Max: 6, Faults: r.Intn(2) == 0, Conf: conf, Timeout: 6 * time.Second}
	if r.Intn(2) == 0 {
		s.C.Max = 3
	}
	s.C.Shuffle = r.Intn(2) == 0
	if r.Intn(3) == 0 {
		s.C.Hook = slow
		k.Count("slow_stores", 1)
	}
	s.Keep = func(key string) bool { var _, other = own[key]; return !other }
	var ok = s.Run()
	if ok {
		k.Count("replicated_roots", s.CheckAll())
	}
	s.Close()
	stats(k, s)
	var l = s.Log()
	k.Case(ok && len(s.Nodes) > 2, strip(l))
}

func strip(l string) string {
	var ls = strings.Split(l, "\n")
	for i := range ls {
		if len(ls[i]) > 7 {
			ls[i] = ls[i][7:]
		}
	}
	return strings.Join(ls, "\n")
}

func stats(k *kit.K, s *nodem.Scenario) {
	var l = s.Log()
	k.Count("nodes", len(s.Nodes))
	k.Count("tcp_links", strings.Count(l, "udp: false"))
	k.Count("udp_links", strings.Count(l, "udp: true"))
	k.Count("published", strings.Count(l, " publishes "))
	k.Count("out_of_order", strings.Count(l, " out of order"))
	k.Count("restarted", strings.Count(l, " is restarted"))
	k.Count("reconnected", strings.Count(l, " closes connection"))
	k.Count("unsubscribed", strings.Count(l, " unsubscribes "))
	k.Count("not_shared_for_a_while", strings.Count(l, " doesn't share "))
	for _, n := range s.Nodes {
		k.Count("filled", int(atomic.LoadInt32(&n.Filled)))
		k.Count("broken", int(atomic.LoadInt32(&n.Broken)))
		k.Count("replaced", int(atomic.LoadInt32(&n.Replaced)))
		if c := n.Container().Config(); c.CacheMaxAmount < 13 {
			k.Count("small_caches", 1)
		}
	}
	if s.Late {
		k.Count("late", 1)
	} else {
		k.Count("early", 1)
	}
	for f, in := range s.In {
		k.Count("not_sharing_nodes", len(s.Nodes)-len(in))
		if len(s.Feeds[f].Roots) > 1 {
			k.Count("several_heads", 1)
		}
		for i := range in {
			if !s.Linked(i, s.Feeds[f].Owner) && i != s.Feeds[f].Owner {
				k.Count("several_hops", 1)
			}
		}
	}
}
