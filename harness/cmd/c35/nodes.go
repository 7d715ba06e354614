package main

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"sync"
	"sync/atomic"
	"time"

	"verif/kit"
	"verif/nodem"

	"github.com/skycoin/cxo/cxoutils"
	"github.com/skycoin/cxo/node"
	"github.com/skycoin/cxo/skyobject"
	"github.com/skycoin/cxo/skyobject/registry"
	"github.com/skycoin/skycoin/src/cipher"
)

// users of nodes
type world struct {
	*nodem.World
	*calls
	k *kit.K

	rpc  map[*nodem.N]string
	stop chan struct{}
	busy int32
	evil cipher.PubKey // a feed that comes and goes
}

func nodes(k *kit.K, i int) {
	var r = k.Rng("nodes", i)
	var name = fmt.Sprint("nodes ", i)
	var w = &world{k: k, stop: make(chan struct{}), rpc: make(map[*nodem.N]string)}
	w.calls = newCalls(k, name, "node_calls")
	w.World = nodem.NewWorld(k, r, name)
	// roots can be lost, subscriptions are changed any way
	w.Keep = func(key string) bool { return key == "value" }
	defer os.RemoveAll(w.World.Dir)
	w.evil, _, _ = cipher.GenerateDeterministicKeyPair([]byte(name))
	var n = 2 + r.Intn(3)
	for j := 0; j < n; j++ {
		w.node(r)
	}
	for j := 1 + r.Intn(2); j > 0; j-- {
		var f = w.Feed(r.Intn(n), true)
		for _, d := range w.Nodes {
			if r.Intn(5) > 0 {
				d.Share(f.PK)
			}
		}
	}
	for j, d := range w.Nodes {
		for l := 0; l < j; l++ {
			var udp = w.Nodes[l].O.UDP && r.Intn(3) == 0
			if c, err := d.Connect(w.Nodes[l], udp); err == nil {
				for _, f := range w.Feeds {
					if r.Intn(4) > 0 {
						c.Subscribe(f.PK)
					}
				}
			}
		}
	}
	var wg sync.WaitGroup
	for j := range w.Feeds {
		var f, r = w.Feeds[j], rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !w.stopped() {
				w.do("publish", func() { w.Publish(f, uint64(1+r.Intn(2))) })
				time.Sleep(time.Duration(r.Intn(10)) * time.Millisecond)
			}
		}()
	}
	for j := 5 + r.Intn(6); j > 0; j-- {
		var r = rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			k.Guard("panic", name, func() {
				var cl *node.RPCClient
				for !w.stopped() {
					w.act(w.Nodes[r.Intn(n)], r, &cl)
					if r.Intn(3) == 0 {
						time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
					}
				}
				if cl != nil {
					cl.Close()
				}
			})
		}()
	}
	for t := time.Now().Add(time.Duration(500+r.Intn(1500)) * time.Millisecond); time.Now().Before(t); {
		w.late(r)
	}
	close(w.stop)
	wg.Wait()
	// closed from several goroutines
	for _, d := range w.Nodes {
		var d = d
		d.End()
		if r.Intn(2) == 0 {
			go d.Close()
		}
		w.do("close", func() { w.CloseNode(d) })
	}
	w.end()
	k.Count("worlds", 1)
	w.World.Close()
}

// a node that doesn't listen yet, everything at once
func (w *world) late(r *rand.Rand) {
	var o = nodem.Opt{Timeout: 3 * time.Second, Loose: true, Dir: "memory", Conf: func(c *node.Config) { c.TCP.Listen = "" }}
	var d, err = nodem.New("late", o, w.Report)
	if err != nil {
		w.Report("new-node", "%v", err)
		return
	}
	var peer = w.Nodes[0]
	var addr = peer.TCPAddr()
	var calls = []func(){
		func() { d.TCP().Listen("127.0.0.1:0") },
		func() { d.TCP().Address() },
		func() { d.UDP().Listen("127.0.0.1:0") },
		func() { d.UDP().Address() },
		func() { d.TCP().Connect(addr) },
		func() { d.TCP().Discovery() },
		func() { d.Share(w.Feeds[0].PK) },
		func() { d.Stat() },
		func() { d.Connections() },
		func() { d.Feeds() },
	}
	var wg sync.WaitGroup
	for j := 0; j < 4; j++ {
		var r = rand.New(rand.NewSource(r.Int63()))
		for _, f := range calls {
			var f, pause = f, time.Duration(r.Intn(300)) * time.Microsecond
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(pause)
				w.do("late", f)
			}()
		}
	}
	if r.Intn(2) == 0 {
		wg.Wait()
	}
	d.End()
	w.do("close", func() { w.CloseNode(d) })
	wg.Wait()
	w.k.Count("late", 1)
}

func (w *world) node(r *rand.Rand) {
	var o = nodem.Opt{UDP: r.Intn(3) == 0, Timeout: 3 * time.Second, Loose: true, Dir: "memory"}
	var rpc string
	if r.Intn(2) == 0 {
		rpc = nodem.FreePort()
	}
	o.Conf = func(c *node.Config) {
		c.RPC = rpc
		c.MaxHeads = r.Intn(4)
		if r.Intn(3) == 0 {
			c.MaxFillingParallel = 1 + r.Intn(4)
		}
		c.OnPeerAdded = func(cipher.PubKey, node.Peer) {}
		c.Config.CacheRegistries = r.Intn(3)
	}
	var seed = r.Int63()
	var d *nodem.N
	var mx sync.Mutex
	var rr = rand.New(rand.NewSource(seed))
	var dice = func(n int) int {
		mx.Lock()
		defer mx.Unlock()
		return rr.Intn(n)
	}
	var look = func(c *node.Conn) {
		w.k.Count("callbacks", 1)
		var n = c.Node()
		switch dice(6) {
		case 0:
			n.Connections()
		case 1:
			n.Stat()
		case 2:
			_ = c.String()
			c.Address()
		case 3:
			n.Config()
		case 4:
			n.Container().Feeds()
		}
	}
	o.OnConnect = func(c *node.Conn) (err error) {
		look(c)
		if dice(3) == 0 {
			go func() {
				w.do("subscribe", func() { c.Subscribe(w.Feeds[0].PK) })
			}()
		}
		if dice(12) == 0 {
			return errors.New("refused")
		}
		return
	}
	o.OnReceived = func(c *node.Conn, r *registry.Root) (err error) {
		look(c)
		w.k.Count("roots_received", 1)
		if dice(12) == 0 {
			return errors.New("refused")
		}
		return
	}
	o.OnSubscribe = func(c *node.Conn, pk cipher.PubKey) (err error) {
		look(c)
		if dice(12) == 0 {
			return errors.New("refused")
		}
		return
	}
	o.OnFilled = func(n *nodem.N, rt *registry.Root) {
		w.k.Count("callbacks", 1)
		switch dice(5) {
		case 0:
			walk(n.Container(), rt)
		case 1:
			n.Container().DelRoot(rt.Pub, rt.Nonce, rt.Seq)
		case 2:
			n.Container().LastRoot(rt.Pub, rt.Nonce)
		case 3:
			n.Connections()
		}
	}
	o.OnBreaks = func(n *nodem.N, rt *registry.Root, err error) {
		w.k.Count("callbacks", 1)
		_ = rt.String()
		n.Connections()
	}
	d = w.Node(o)
	w.rpc[d] = rpc
}

func (w *world) stopped() bool {
	select {
	case <-w.stop:
		return true
	default:
		return false
	}
}

func (w *world) act(d *nodem.N, r *rand.Rand, cl **node.RPCClient) {
	var f = w.Feeds[r.Intn(len(w.Feeds))].PK
	if r.Intn(6) == 0 {
		f = w.evil
	}
	var c *node.Conn
	if cs := d.Connections(); len(cs) > 0 {
		c = cs[r.Intn(len(cs))]
	}
	var x = w.Nodes[r.Intn(len(w.Nodes))]
	var con = d.Container()
	var n = r.Intn(30)
	if c == nil && n < 7 {
		n += 7
	}
	switch n {
	case 0, 1:
		w.do("subscribe", func() { c.Subscribe(f) })
	case 2:
		w.do("unsubscribe", func() { c.Unsubscribe(f) })
	case 3:
		w.do("remote feeds", func() { c.RemoteFeeds() })
	case 4:
		w.do("preview", func() {
			c.Preview(f, func(p registry.Pack, x *registry.Root) bool {
				x.Tree(p)
				return r.Intn(3) == 0
			})
		})
	case 5:
		w.do("conn info", func() {
			for _, pk := range c.Feeds() {
				_ = pk[0]
			}
			_ = c.String()
			c.PeerID()
			c.IsIncoming()
			c.IsOutgoing()
			c.Address()
		})
	case 6:
		if r.Intn(6) == 0 {
			w.do("close conn", func() { c.Close() })
		}
	case 7, 8, 9:
		if x.O.UDP && r.Intn(3) == 0 {
			w.do("connect udp", func() { d.UDP().Connect(x.UDPAddr()) })
		} else {
			w.do("connect", func() { d.TCP().Connect(x.TCPAddr()) })
		}
	case 10:
		w.do("share", func() { d.Share(f) })
	case 11:
		if f == w.evil || r.Intn(10) == 0 {
			w.do("don't share", func() { d.DontShare(f) })
		}
	case 12, 13:
		w.do("lists", func() {
			for _, pk := range d.Feeds() {
				_ = pk[0]
			}
			for _, c := range d.ConnectionsOfFeed(f) {
				_ = c.String()
			}
			d.ConnectionsOfFeed(cipher.PubKey{})
			d.IsSharing(f)
			d.ID()
			d.Config()
		})
	case 14:
		w.do("stat", func() { _ = fmt.Sprint(d.Stat()) })
	case 15:
		w.do("publish again", func() {
			if x, err := nodem.Last(con, f); err == nil {
				d.Publish(x)
			}
		})
	case 16, 17:
		w.do("walk", func() {
			if x, err := nodem.Last(con, f); err == nil {
				walk(con, x)
			}
		})
	case 18:
		w.do("join", func() {
			if s, err := d.JoinSwarm(f, node.SwarmConfig{RequestPeerRate: 5 * time.Millisecond, OutgoingConnRate: 7 * time.Millisecond, ClearOldPeersRate: 9 * time.Millisecond}); err == nil {
				if x != d {
					s.AddPeer(x.ID(), nil, x.TCPAddr(), "")
				}
				s.Peers()
			}
		})
	case 19:
		w.do("swarm", func() {
			if s, ok := d.InSwarm(f); ok {
				for _, p := range s.Peers() {
					if r.Intn(4) == 0 {
						s.RemovePeer(p.PubKey)
					}
				}
			}
			if r.Intn(4) == 0 {
				d.LeaveSwarm(f)
			}
		})
	case 20:
		w.do("remove objects", func() { cxoutils.RemoveObjects(con) })
	case 21:
		w.do("remove roots", func() { cxoutils.RemoveRootObjects(con, 1+r.Intn(4)) })
	case 22:
		w.do("listen", func() {
			d.TCP().Listen("127.0.0.1:0")
			d.TCP().Address()
			d.UDP().Address()
		})
	case 23:
		var h = cipher.SumSHA256([]byte(fmt.Sprint(r.Intn(20))))
		w.do("want", func() {
			var ch = make(chan skyobject.Object, 1)
			if con.Want(h, ch, 0) == nil {
				con.Unwant(h, ch)
			}
		})
	case 24:
		w.do("index", func() {
			for _, pk := range con.Feeds() {
				var hs, _ = con.Heads(pk)
				for _, h := range hs {
					con.LastRoot(pk, h)
				}
			}
		})
	case 25:
		w.do("del head", func() { con.DelHead(w.evil, 1) })
	default:
		w.remote(d, f, r, cl)
	}
}

func (w *world) remote(d *nodem.N, f cipher.PubKey, r *rand.Rand, cl **node.RPCClient) {
	if w.rpc[d] == "" {
		return
	}
	if *cl == nil || r.Intn(6) == 0 {
		if *cl != nil {
			(*cl).Close()
			*cl = nil
		}
		var err error
		if *cl, err = node.NewRPCClient(w.rpc[d]); err != nil {
			*cl = nil
			return
		}
	}
	var x = w.Nodes[r.Intn(len(w.Nodes))]
	w.do("rpc", func() {
		switch r.Intn(10) {
		case 0:
			(*cl).TCP().Connect(x.TCPAddr())
		case 1:
			(*cl).Node().Feeds()
		case 2:
			(*cl).Node().Stat()
		case 3:
			(*cl).Root().Last(f)
		case 4:
			(*cl).Node().Connections()
		case 5:
			(*cl).Node().ConnectionsOfFeed(f)
		case 6:
			(*cl).Node().Share(f)
		case 7:
			(*cl).TCP().Subscribe(x.TCPAddr(), f)
		case 8:
			(*cl).TCP().RemoteFeeds(x.TCPAddr())
		default:
			(*cl).Node().Config()
		}
	})
	atomic.AddInt32(&w.busy, 0)
}
