// C33: RPC, the command line tool and the daemon
package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/kit"
	"verif/nodem"

	"github.com/skycoin/cxo/node"
	"github.com/skycoin/cxo/skyobject"
)

var build string // directory with binaries
var tmp string

func main() {
	kit.Main("C33", kit.Opts{
		Rule: "a node with one or two peers, TCP and UDP, feeds and roots of random content; random histories of remote procedures called by one or more clients: answers are compared with the API of the node, " +
			"effects with the state of the node and its peers, errors with errors of the API; the same with the command line tool, its arguments malformed too; hostile clients (garbage, mutated, truncated, " +
			"oversized and out-of-order requests, unknown methods, wrong types, silence); the daemon replicates a feed driven by the tool, is stopped or killed and its database is opened again; " +
			"non-trivial with an effect seen through other interface; distinct by the history",
		Need: []string{"answers", "effects", "errors_compared", "feeds", "connections", "pending", "connections_of_feed", "config", "stat", "roots", "trees", "missing_roots", "remote_feeds", "subscribed", "not_subscribed", "disconnected",
			"udp_connected", "connect_failed", "cli", "cli_errors", "cli_interactive", "hostile", "hostile_answers", "hostile_errors", "concurrent_calls", "closed", "daemons", "daemon_roots", "daemons_killed"},
		MinCases: 1000,
		Watchdog: 14 * time.Minute,
	}, run)
}

func run(k *kit.K) {
	build = filepath.Join(os.Getenv("VERIF_ROOT"), ".build")
	var err error
	if tmp, err = os.MkdirTemp("", "c33"); err != nil {
		panic(err)
	}
	defer os.RemoveAll(tmp)
	os.Setenv("HOME", tmp)
	var next int32 = -1
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := int(atomic.AddInt32(&next, 1)); i < k.N(3000, 60000) && k.Bad() < 6; i = int(atomic.AddInt32(&next, 1)) {
				var name = fmt.Sprint("case ", i)
				var t = &test{World: nodem.NewWorld(k, k.Rng(i), name), k: k, r: k.Rng(i, "r"), i: i}
				var f = t.run
				if i%20 == 7 {
					f = t.daemon
				}
				k.Within("hang", name, 5*time.Minute, f)
			}
		}()
	}
	wg.Wait()
}

type test struct {
	*nodem.World
	k *kit.K
	r *rand.Rand
	i int

	n     *nodem.N // has the RPC
	peers []*nodem.N
	feeds []*nodem.Feed
	other []nodem.PK // feeds without an owner
	udp   bool
	rpc   string
	c     *node.RPCClient
	seen  bool // an effect
}

func (t *test) run() {
	var r = t.r
	t.rpc = nodem.FreePort()
	t.udp = r.Intn(2) == 0
	var public = r.Intn(2) == 0
	t.n = t.Node(nodem.Opt{UDP: t.udp, Timeout: 10 * time.Second, Loose: true, Conf: func(c *node.Config) {
		c.RPC = t.rpc
		c.MaxHeads = r.Intn(20) * 1000
		c.TCP.Pings = time.Duration(r.Intn(3)) * time.Hour
		c.Config.CachePolicy = skyobject.CachePolicy(r.Intn(2))
		c.Config.RollAvgSamples = 1 + r.Intn(10)
		if r.Intn(4) == 0 {
			c.TCP.Listen = ""
		}
		c.Public = r.Intn(2) == 0
	}})
	for i := 1 + r.Intn(2); i > 0; i-- {
		t.peers = append(t.peers, t.Node(nodem.Opt{UDP: t.udp, Timeout: 10 * time.Second, Loose: true, Conf: func(c *node.Config) { c.Public = public }}))
	}
	for i := range t.Nodes {
		for j := r.Intn(3); j > 0; j-- {
			var f = t.Feed(i, true)
			t.feeds = append(t.feeds, f)
			if r.Intn(4) > 0 {
				t.Nodes[i].Share(f.PK)
			}
			for x := r.Intn(4); x > 0 && t.Nodes[i].IsSharing(f.PK); x-- {
				t.Publish(f, uint64(1+r.Intn(2)))
			}
		}
	}
	for i := 0; i < 2; i++ {
		var pk nodem.PK
		r.Read(pk[:])
		t.other = append(t.other, pk)
	}
	var err error
	if t.c, err = node.NewRPCClient(t.rpc); err != nil {
		t.Report("dial", "%v", err)
		return
	}
	var cli = r.Intn(4) == 0
	for i := 8 + r.Intn(25); i > 0 && t.Bad() == 0; i-- {
		switch {
		case cli && r.Intn(3) == 0:
			t.cli()
		case r.Intn(8) == 0:
			t.hostile()
		default:
			t.op()
		}
	}
	if r.Intn(3) == 0 && t.Bad() == 0 {
		t.concurrent()
	}
	if t.Bad() == 0 {
		t.alive()
	}
	// closing ends calls
	if t.Bad() == 0 && r.Intn(2) == 0 {
		t.CloseNode(t.n)
		if _, err = t.c.Node().Feeds(); err == nil {
			t.Report("closed", "a closed node answers")
		}
		if c, err := node.NewRPCClient(t.rpc); err == nil {
			if _, err = c.Node().Feeds(); err == nil {
				t.Report("closed", "a closed node accepts RPC clients")
			}
			c.Close()
		}
		t.k.Count("closed", 1)
	}
	t.c.Close()
	t.Close()
	t.k.Case(t.seen, strip(t.Log()))
}

func strip(l string) string {
	var ls = strings.Split(l, "\n")
	for i := range ls {
		if len(ls[i]) > 7 {
			ls[i] = ls[i][7:]
		}
	}
	return strings.Join(ls, "\n")
}

// the node serves other clients
func (t *test) alive() {
	var c, err = node.NewRPCClient(t.rpc)
	if err != nil {
		t.Report("alive", "the node doesn't accept RPC clients: %v", err)
		return
	}
	defer c.Close()
	var fs, ferr = c.Node().Feeds()
	if !nodem.Wait(10*time.Second, func() bool { // calls of hostile clients can be in progress
		fs, ferr = c.Node().Feeds()
		return ferr == nil && keys(fs) == keys(t.n.Feeds())
	}) {
		t.Report("alive", "feeds are %s (%v), want %s", keys(fs), ferr, keys(t.n.Feeds()))
	}
}
