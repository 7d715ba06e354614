package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/cxstore"
	"verif/kit"
	"verif/nodem"

	"github.com/skycoin/cxo/cxoutils"
	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/data/idxdb"
	"github.com/skycoin/cxo/node"
	"github.com/skycoin/cxo/node/msg"
	"github.com/skycoin/cxo/skyobject"
	"github.com/skycoin/cxo/skyobject/registry"
	"github.com/skycoin/skycoin/src/cipher"
)

// a node under test
type nd struct {
	*nodem.N
	kind int // 0 - files, 1 - memory, 2 - store
	path string
	st   *cxstore.Store
	rpc  string

	closing, closed int32
	mx              sync.Mutex
	full            []nodem.H
}

type call struct {
	d    *nd
	name string
	at   time.Time
}

type world struct {
	*nodem.World
	t  *test
	ds []*nd

	stop chan struct{}
	wg   sync.WaitGroup

	cmx    sync.Mutex
	calls  map[int]*call
	next   int
	silent net.Listener
	raws   []*nodem.Raw

	silentUDP net.PacketConn
}

// do a call
func (w *world) do(d *nd, name string, f func()) {
	w.cmx.Lock()
	w.next++
	var id = w.next
	w.calls[id] = &call{d, name, time.Now()}
	w.cmx.Unlock()
	defer func() {
		w.cmx.Lock()
		delete(w.calls, id)
		w.cmx.Unlock()
	}()
	w.t.k.Guard("panic "+name, w.Name+"\n"+w.Log(), f)
	w.t.k.Count("calls", 1)
}

func (w *world) inFlight(d *nd) (names []string) {
	w.cmx.Lock()
	defer w.cmx.Unlock()
	for _, c := range w.calls {
		if d == nil || c.d == d {
			names = append(names, c.name)
		}
	}
	sort.Strings(names)
	return
}

func (t *test) nodes(name string) {
	var r = t.r
	var w = &world{t: t, stop: make(chan struct{}), calls: make(map[int]*call)}
	w.World = nodem.NewWorld(t.k, r, name)
	defer os.RemoveAll(w.World.Dir)
	w.Fail = func(n *nodem.N) bool {
		for _, d := range w.ds {
			if d.N == n {
				return atomic.LoadInt32(&d.closing) != 0
			}
		}
		return true
	}
	var err error
	if w.silent, err = net.Listen("tcp", "127.0.0.1:0"); err != nil {
		panic(err)
	}
	if w.silentUDP, err = net.ListenPacket("udp", "127.0.0.1:0"); err != nil {
		panic(err)
	}
	defer w.silentUDP.Close()
	var smx sync.Mutex
	var sc []net.Conn
	go func() {
		for {
			var c, err = w.silent.Accept()
			if err != nil {
				return
			}
			smx.Lock()
			sc = append(sc, c)
			smx.Unlock()
		}
	}()

	var n = 1 + r.Intn(3)
	for i := 0; i < n; i++ {
		w.node(i)
	}
	var udp bool
	for i := 1 + r.Intn(2); i > 0; i-- {
		var f = w.Feed(r.Intn(n), r.Intn(2) == 0)
		for _, d := range w.ds {
			if d.Index(f.Owner) || r.Intn(4) > 0 {
				if err := d.Share(f.PK); err != nil {
					w.Report("share", "%v", err)
				}
			}
		}
	}
	// connect
	for i := range w.ds {
		for j := 0; j < i; j++ {
			if r.Intn(4) == 0 {
				continue
			}
			var u = r.Intn(4) == 0 && w.ds[j].O.UDP
			udp = udp || u
			if u {
				for _, f := range w.Feeds {
					f.Small = true
				}
			}
			var c, err = w.ds[i].Connect(w.ds[j].N, u)
			if err != nil {
				w.Report("connect", "%v", err)
				continue
			}
			for _, f := range w.Feeds {
				if w.ds[i].IsSharing(f.PK) && w.ds[j].IsSharing(f.PK) {
					c.Subscribe(f.PK)
				}
			}
		}
	}
	// raw peers: without a handshake, established and silent
	for i := r.Intn(3); i > 0; i-- {
		var d = w.ds[r.Intn(n)]
		if x, err := nodem.Dial(d.TCPAddr(), nil); err == nil {
			w.raws = append(w.raws, x)
			if r.Intn(3) > 0 {
				var pk, _, _ = cipher.GenerateDeterministicKeyPair([]byte(fmt.Sprint(name, i)))
				if _, err := x.Hello(pk); err == nil && r.Intn(2) == 0 {
					x.Send(0, &msg.Sub{Feed: w.Feeds[0].PK})
				}
				x.Pause(r.Intn(2) == 0)
			}
		}
	}
	// load
	for i := range w.Feeds {
		w.wg.Add(1)
		go w.publisher(w.Feeds[i], w.t.k.Rng(name, "p", i))
	}
	for i := 3 + r.Intn(6); i > 0; i-- {
		w.wg.Add(1)
		go w.user(w.t.k.Rng(name, "u", i))
	}
	time.Sleep(time.Duration(r.Intn(250)) * time.Millisecond)

	// close
	var busy []string
	var cw sync.WaitGroup
	var order = r.Perm(n)
	for _, i := range order {
		var d = w.ds[i]
		if r.Intn(3) == 0 {
			w.closeConns(d, r)
		}
		var names = w.inFlight(d)
		if len(names) > 0 {
			t.k.Count("busy_closings", 1)
			for _, x := range names {
				if strings.Contains(x, "silent") {
					t.k.Count("blocked_calls", 1)
				}
			}
		}
		busy = append(busy, fmt.Sprint(d.kind, names))
		cw.Add(1)
		var closers = 1
		if r.Intn(2) == 0 {
			closers = 2 + r.Intn(2)
			t.k.Count("closed_by_many", 1)
		}
		var seed = r.Int63()
		go func() { defer cw.Done(); w.close(d, closers, rand.New(rand.NewSource(seed))) }()
		if r.Intn(2) == 0 {
			time.Sleep(time.Duration(r.Intn(60)) * time.Millisecond)
		}
		if r.Intn(3) == 0 {
			cw.Wait()
		}
	}
	cw.Wait()
	if w.Bad() > 0 {
		return
	}
	// the users go on with closed nodes for a while
	time.Sleep(time.Duration(r.Intn(60)) * time.Millisecond)
	close(w.stop)
	if !nodem.Wait(30*time.Second, func() bool { return len(w.inFlight(nil)) == 0 }) {
		w.Report("blocked", "calls don't return after all nodes were closed: %v\n%s", w.inFlight(nil), kit.Stacks())
		t.k.Violate("blocked", name, "calls don't return")
		return
	}
	w.wg.Wait()
	for _, x := range w.raws {
		x.Pause(false)
		x.Close()
	}
	w.silent.Close()
	smx.Lock()
	for _, c := range sc {
		c.Close()
	}
	smx.Unlock()
	for i, d := range w.ds {
		w.reopen(i, d)
	}
	_ = udp
	t.k.Case(len(strings.Join(busy, "")) > 6*n, fmt.Sprint(busy))
}

// Index of the node
func (d *nd) Index(i int) bool { return d.Name == fmt.Sprint("n", i) }

func (w *world) node(i int) {
	var r = w.R
	var d = &nd{kind: []int{0, 0, 0, 1, 2}[r.Intn(5)]}
	var o = nodem.Opt{UDP: r.Intn(3) > 0, Timeout: 10 * time.Minute, Loose: true}
	switch d.kind {
	case 0:
		d.path = filepath.Join(w.Dir, fmt.Sprint("db", i))
		o.Dir = d.path
	case 1:
		o.Dir = "memory"
	default:
		d.path = filepath.Join(w.Dir, fmt.Sprint("idx", i))
		d.st = cxstore.New()
		o.Store, o.Index = d.st, d.path
	}
	if r.Intn(2) == 0 {
		d.rpc = nodem.FreePort()
	}
	var slow = r.Intn(3) == 0
	var seed = r.Int63()
	o.Conf = func(c *node.Config) {
		c.RPC = d.rpc
		c.Public = true
		var r = rand.New(rand.NewSource(seed))
		if r.Intn(3) == 0 {
			c.Config.CacheMaxAmount = r.Intn(30)
		}
		c.Config.MaxFillingParallel = 1 + r.Intn(8)
	}
	var nap = func() {
		if slow {
			time.Sleep(15 * time.Millisecond)
		}
	}
	o.OnConnect = func(*node.Conn) error { nap(); return nil }
	o.OnReceived = func(*node.Conn, *registry.Root) error { nap(); return nil }
	o.OnFilled = func(_ *nodem.N, x *registry.Root) {
		d.mx.Lock()
		d.full = append(d.full, x.Hash)
		d.mx.Unlock()
		nap()
	}
	o.OnSubscribe = func(c *node.Conn, pk nodem.PK) error { nap(); return nil }
	d.N = w.Node(o)
	w.ds = append(w.ds, d)
	w.Logf("%s kind %d udp %v rpc %v slow %v", d.Name, d.kind, o.UDP, d.rpc != "", slow)
}

func (w *world) stopped() bool {
	select {
	case <-w.stop:
		return true
	default:
		return false
	}
}

func (w *world) publisher(f *nodem.Feed, r *rand.Rand) {
	defer w.wg.Done()
	for !w.stopped() {
		w.do(w.ds[f.Owner], "publish", func() { w.Publish(f, uint64(1+r.Intn(2))) })
		time.Sleep(time.Duration(r.Intn(12)) * time.Millisecond)
	}
}

func (w *world) user(r *rand.Rand) {
	defer w.wg.Done()
	var cl *node.RPCClient
	defer func() {
		if cl != nil {
			cl.Close()
		}
	}()
	for !w.stopped() {
		w.act(w.ds[r.Intn(len(w.ds))], r, &cl)
		if r.Intn(2) == 0 {
			time.Sleep(time.Duration(r.Intn(5000)) * time.Microsecond)
		}
	}
}

func (w *world) act(d *nd, r *rand.Rand, cl **node.RPCClient) {
	var f = w.Feeds[r.Intn(len(w.Feeds))]
	var c *node.Conn
	var peer = ""
	if cs := d.Connections(); len(cs) > 0 {
		c = cs[r.Intn(len(cs))]
		peer = " silent"
		for _, x := range w.ds {
			if x.ID() == c.PeerID() {
				peer = ""
			}
		}
	}
	var k = r.Intn(24)
	if c == nil && k < 6 {
		k += 6
	}
	switch k {
	case 0, 1:
		w.do(d, "subscribe"+peer, func() { c.Subscribe(f.PK) })
	case 2:
		w.do(d, "unsubscribe"+peer, func() { c.Unsubscribe(f.PK) })
	case 3:
		w.do(d, "remote feeds"+peer, func() { c.RemoteFeeds() })
	case 4:
		w.do(d, "preview"+peer, func() {
			c.Preview(f.PK, func(p registry.Pack, x *registry.Root) bool {
				if r.Intn(2) == 0 {
					x.Tree(p)
				}
				return r.Intn(4) == 0
			})
		})
	case 5:
		if r.Intn(4) == 0 {
			w.do(d, "close conn"+peer, func() { w.closeConn(d, c) })
		} else {
			w.do(d, "conn info", func() { c.Feeds(); _ = c.String() })
		}
	case 6, 7:
		var x = w.ds[r.Intn(len(w.ds))]
		w.do(d, "connect", func() { d.TCP().Connect(x.TCPAddr()) })
	case 8:
		switch r.Intn(6) {
		case 0, 1:
			w.do(d, "connect silent", func() { d.TCP().Connect(w.silent.Addr().String()) })
		case 2:
			w.do(d, "connect silent udp", func() { d.UDP().Connect(w.silentUDP.LocalAddr().String()) })
		}
	case 9:
		var x = w.ds[r.Intn(len(w.ds))]
		if x.O.UDP && r.Intn(3) == 0 {
			w.do(d, "connect udp", func() { d.UDP().Connect(x.UDPAddr()) })
		}
	case 10:
		w.do(d, "share", func() { d.Share(f.PK) })
	case 11:
		if !d.Index(f.Owner) && r.Intn(3) == 0 {
			w.do(d, "don't share", func() { d.DontShare(f.PK) })
		}
	case 12:
		w.do(d, "lists", func() {
			d.Feeds()
			d.Connections()
			d.ConnectionsOfFeed(f.PK)
			d.ConnectionsOfFeed(nodem.PK{})
			d.IsSharing(f.PK)
		})
	case 13:
		w.do(d, "stat", func() { d.Stat() })
	case 14:
		w.do(d, "last root", func() {
			if x, err := nodem.Last(d.Container(), f.PK); err == nil {
				d.Publish(x)
			}
		})
	case 15:
		w.do(d, "walk", func() {
			if x, err := nodem.Last(d.Container(), f.PK); err == nil {
				d.Container().Walk(x, func(h nodem.H, _ int) (bool, error) { return true, nil })
			}
		})
	case 16:
		w.do(d, "join", func() {
			var s, err = d.JoinSwarm(f.PK, node.SwarmConfig{RequestPeerRate: 5 * time.Millisecond, OutgoingConnRate: 7 * time.Millisecond, ClearOldPeersRate: 9 * time.Millisecond})
			if err == nil {
				var x = w.ds[r.Intn(len(w.ds))]
				if x != d {
					s.AddPeer(x.ID(), nil, x.TCPAddr(), "")
				}
				if r.Intn(4) == 0 {
					s.AddPeer(f.PK, nil, w.silent.Addr().String(), "")
				}
				s.Peers()
			}
		})
	case 17:
		w.do(d, "leave", func() {
			if r.Intn(2) == 0 {
				d.LeaveSwarm(f.PK)
			}
			if s, ok := d.InSwarm(f.PK); ok {
				s.Peers()
			}
		})
	case 18:
		if r.Intn(4) == 0 {
			w.do(d, "remove objects", func() { cxoutils.RemoveObjects(d.Container()) })
		}
	case 19:
		if r.Intn(2) == 0 {
			w.do(d, "listen", func() { d.TCP().Listen("127.0.0.1:0") })
		} else {
			w.do(d, "listen", func() { d.UDP().Listen("127.0.0.1:0") })
		}
	case 20:
		w.do(d, "want", func() {
			var ch = make(chan skyobject.Object, 1)
			var h = cipher.SumSHA256([]byte(fmt.Sprint(r.Int63())))
			if d.Container().Want(h, ch, 0) == nil && r.Intn(2) == 0 {
				d.Container().Unwant(h, ch)
			}
		})
	default:
		w.rpc(d, f, r, cl)
	}
}

func (w *world) rpc(d *nd, f *nodem.Feed, r *rand.Rand, cl **node.RPCClient) {
	if d.rpc == "" {
		return
	}
	if *cl == nil || r.Intn(6) == 0 {
		if *cl != nil {
			(*cl).Close()
			*cl = nil
		}
		var err error
		if *cl, err = node.NewRPCClient(d.rpc); err != nil {
			*cl = nil
			return
		}
	}
	w.t.k.Count("rpc_calls", 1)
	switch r.Intn(6) {
	case 0:
		w.do(d, "rpc connect", func() { (*cl).TCP().Connect(w.ds[r.Intn(len(w.ds))].TCPAddr()) })
	case 1:
		if r.Intn(3) == 0 {
			w.do(d, "rpc connect silent", func() { (*cl).TCP().Connect(w.silent.Addr().String()) })
		}
	case 2:
		w.do(d, "rpc feeds", func() { (*cl).Node().Feeds() })
	case 3:
		w.do(d, "rpc stat", func() { (*cl).Node().Stat() })
	case 4:
		w.do(d, "rpc last", func() { (*cl).Root().Last(f.PK) })
	default:
		w.do(d, "rpc connections", func() { (*cl).Node().Connections() })
	}
}

// closeConn closes the connection, and it must not be listed after
func (w *world) closeConn(d *nd, c *node.Conn) {
	c.Close()
	for _, x := range d.Connections() {
		if x == c {
			w.Report("conn-listed", "%s: Close of a connection returned, but the node lists the connection\n%s", d.Name, d.Log())
		}
	}
	for _, f := range w.Feeds {
		for _, x := range d.ConnectionsOfFeed(f.PK) {
			if x == c {
				w.Report("conn-listed", "%s: Close of a connection returned, but the connection is listed for a feed\n%s", d.Name, d.Log())
			}
		}
	}
	w.t.k.Count("conns_closed", 1)
}

func (w *world) closeConns(d *nd, r *rand.Rand) {
	for _, c := range d.Connections() {
		for i := 1 + r.Intn(2); i > 0; i-- {
			var c = c
			w.wg.Add(1)
			go func() {
				defer w.wg.Done()
				w.do(d, "close conn", func() { w.closeConn(d, c) })
			}()
		}
	}
}

func (w *world) close(d *nd, closers int, r *rand.Rand) {
	var known = d.Connections()
	var tcp, udp = d.TCP().ListenAddr(), ""
	if d.O.UDP {
		udp = d.UDPAddr()
	}
	atomic.StoreInt32(&d.closing, 1)
	w.Logf("%s is closed by %d; in progress %v", d.Name, closers, w.inFlight(d))
	var errs = make(chan error, closers)
	for i := 0; i < closers; i++ {
		var nap = time.Duration(r.Intn(3000)) * time.Microsecond
		if i == 0 {
			nap = 0
		}
		go func() {
			time.Sleep(nap)
			w.t.k.Guard("panic close", w.Name+"\n"+w.Log(), func() { errs <- d.N.Close() })
		}()
	}
	for i := 0; i < closers; i++ {
		select {
		case err := <-errs:
			if err != nil {
				w.Report("close", "%s: Close: %v", d.Name, err)
			}
		case <-time.After(time.Minute):
			w.Report("close-hang", "%s: Close doesn't return\n%s", d.Name, kit.Stacks())
			return
		}
	}
	d.End()
	d.Unclosed()
	atomic.StoreInt32(&d.closed, 1)
	w.t.k.Count("nodes_closed", 1)
	w.after(d, known, r)
	// peers see it
	for _, x := range w.ds {
		if x != d && atomic.LoadInt32(&x.closing) == 0 {
			var ok = nodem.Wait(20*time.Second, func() bool {
				var c = x.Conn(d.N)
				return c == nil || !c.IsTCP() || atomic.LoadInt32(&x.closing) != 0
			})
			if !ok {
				w.Report("peer", "%s still has connection with closed %s\n%s", x.Name, d.Name, w.CB())
			}
			w.t.k.Count("peers_noticed", 1)
		}
	}
	// the addresses are free
	var l, err = net.Listen("tcp", tcp)
	if err != nil {
		w.Report("tcp-address", "%s: address %s is not released: %v", d.Name, tcp, err)
	} else {
		l.Close()
	}
	if udp != "" {
		if u, err := net.ListenPacket("udp", udp); err != nil {
			w.Report("udp-address", "%s: address %s is not released: %v", d.Name, udp, err)
		} else {
			u.Close()
		}
	}
	if d.rpc != "" {
		if l, err = net.Listen("tcp", d.rpc); err != nil {
			w.Report("rpc-address", "%s: address %s is not released: %v", d.Name, d.rpc, err)
		} else {
			l.Close()
		}
	}
	w.t.k.Count("rebound", 1)
}

// calls of the closed node
func (w *world) after(d *nd, cs []*node.Conn, r *rand.Rand) {
	var f = w.Feeds[r.Intn(len(w.Feeds))]
	var must = func(name string, err error) {
		if err == nil {
			w.Report("no-error "+name, "%s is closed, but %s returns no error", d.Name, name)
		}
	}
	var other = w.ds[r.Intn(len(w.ds))]
	var acts = []struct {
		name string
		f    func()
	}{
		{"Close", func() {
			if err := d.N.Close(); err != nil {
				w.Report("second-close", "%s: second Close returns %v", d.Name, err)
			}
		}},
		{"Connect", func() {
			var c, err = d.TCP().Connect(other.TCPAddr())
			must("Connect", err)
			_ = c
		}},
		{"Connect to nobody", func() {
			var _, err = d.TCP().Connect(w.silent.Addr().String())
			must("Connect", err)
		}},
		{"Connect UDP", func() {
			if u := other.UDP(); other.O.UDP {
				var _, err = d.UDP().Connect(u.ListenAddr())
				must("UDP Connect", err)
			}
		}},
		{"Listen", func() { must("Listen", d.TCP().Listen("127.0.0.1:0")) }},
		{"Listen UDP", func() { must("UDP Listen", d.UDP().Listen("127.0.0.1:0")) }},
		{"Share", func() { d.Share(f.PK) }},
		{"Share new", func() { var pk = f.PK; pk[5] ^= 0x55; d.Share(pk) }},
		{"DontShare", func() { d.DontShare(f.PK) }},
		{"lists", func() {
			d.Feeds()
			d.IsSharing(f.PK)
			d.ConnectionsOfFeed(f.PK)
			d.Stat()
			if n := len(d.Connections()); n > 0 {
				w.Report("connections", "%s is closed, but lists %d connections", d.Name, n)
			}
		}},
		{"JoinSwarm", func() {
			var _, err = d.JoinSwarm(f.PK, node.SwarmConfig{})
			must("JoinSwarm", err)
		}},
		{"LeaveSwarm", func() { d.LeaveSwarm(f.PK) }},
		{"Publish", func() {
			if x := f.Newest(); x != nil {
				d.Publish(x.R)
			}
		}},
		{"Save", func() {
			if w.ds[f.Owner] == d {
				w.Publish(f, uint64(1+r.Intn(2)))
			}
		}},
		{"Container", func() {
			var c = d.Container()
			c.Get(cipher.SumSHA256([]byte("x")), 0)
			c.Set(cipher.SumSHA256([]byte("x")), []byte("x"), 1)
			c.Inc(cipher.SumSHA256([]byte("x")), 1)
			var ch = make(chan skyobject.Object, 1)
			c.Want(cipher.SumSHA256([]byte("y")), ch, 1)
			if x, err := nodem.Last(c, f.PK); err == nil {
				c.Walk(x, func(nodem.H, int) (bool, error) { return true, nil })
				c.DelRoot(x.Pub, x.Nonce, x.Seq)
			}
			c.Stat()
			c.Heads(f.PK)
			c.Feeds()
		}},
		{"cxoutils", func() { cxoutils.RemoveObjects(d.Container()); cxoutils.RemoveRootObjects(d.Container(), 1) }},
		{"Close of the container", func() { d.Container().Close() }},
	}
	for _, c := range cs {
		var c = c
		acts = append(acts, struct {
			name string
			f    func()
		}{"Conn", func() {
			must("Subscribe", c.Subscribe(f.PK))
			c.Unsubscribe(f.PK)
			var _, err = c.RemoteFeeds()
			must("RemoteFeeds", err)
			must("Preview", c.Preview(f.PK, func(registry.Pack, *registry.Root) bool { return false }))
			c.Feeds()
			c.Close()
		}})
	}
	if d.rpc != "" {
		acts = append(acts, struct {
			name string
			f    func()
		}{"RPC", func() {
			if cl, err := node.NewRPCClient(d.rpc); err == nil {
				_, err = cl.Node().Feeds()
				must("RPC", err)
				cl.Close()
			}
		}})
	}
	r.Shuffle(len(acts), func(i, j int) { acts[i], acts[j] = acts[j], acts[i] })
	for _, a := range acts {
		var done = make(chan struct{})
		var a = a
		go func() {
			defer close(done)
			w.t.k.Guard("panic after close: "+a.name, w.Name+"\n"+w.Log(), a.f)
		}()
		select {
		case <-done:
			w.t.k.Count("late_calls", 1)
		case <-time.After(30 * time.Second):
			w.Report("late-hang", "%s is closed, and %s doesn't return\n%s", d.Name, a.name, kit.Stacks())
			return
		}
	}
}

// the databases after closing
func (w *world) reopen(i int, d *nd) {
	var r = w.R
	var conf = skyobject.NewConfig()
	switch d.kind {
	case 0:
		conf.DataDir, conf.InMemoryDB = d.path, false
		conf.CheckSizes = r.Intn(2) == 0
		w.t.k.Count("reopened_files", 1)
	case 2:
		d.st.Reopen()
		var idx, err = idxdb.NewDriveIdxDB(d.path)
		if err != nil {
			w.Report("reopen", "%s: %v", d.Name, err)
			return
		}
		conf.DB = data.NewDB(d.st, idx)
		w.t.k.Count("reopened_store", 1)
	default:
		return
	}
	var c, err = skyobject.NewContainer(conf)
	if err != nil {
		w.Report("reopen", "%s can't be opened again: %v", d.Name, err)
		return
	}
	defer c.Close()
	for _, f := range w.Feeds {
		for _, x := range f.All() {
			var filled bool
			for _, h := range d.full {
				filled = filled || h == x.R.Hash
			}
			if f.Owner != i && !filled {
				continue
			}
			if f.Owner == i {
				w.t.k.Count("roots_checked", 1)
			} else {
				w.t.k.Count("fillings_checked", 1)
			}
			var got, err = c.Root(x.R.Pub, x.R.Nonce, x.R.Seq)
			if err != nil || got.Hash != x.R.Hash || !got.IsFull {
				w.Report("lost", "%s: root %d/%d (%s) was saved or reported as filled, and is lost after closing: %v (of the node %v)\n%s", d.Name, x.R.Nonce, x.R.Seq, x.R.Hash.Hex()[:6], err, f.Owner == i, d.Log())
				return
			}
			for h := range x.Reach {
				var v, _ = f.Value(h)
				if g, rc, err := c.Get(h, 0); err != nil || rc == 0 || !bytes.Equal(g, v) {
					w.Report("lost-object", "%s: object %s of root %d/%d is lost after closing: %d, %v (of the node %v)", d.Name, h.Hex()[:6], x.R.Nonce, x.R.Seq, rc, err, f.Owner == i)
					return
				}
			}
		}
	}
	var n, what = listed(c)
	w.t.k.Count("walked_roots", n)
	if what != "" {
		w.Report("partial", "%s after closing: %s\n%s", d.Name, what, d.Log())
	}
}

// every root the index lists is complete
func listed(c *skyobject.Container) (n int, what string) {
	type id struct {
		pk         nodem.PK
		nonce, seq uint64
	}
	var ids []id
	for _, pk := range c.Feeds() {
		var pk = pk
		var err = c.DB().IdxDB().Tx(func(fs data.Feeds) error {
			var hs, err = fs.Heads(pk)
			if err != nil {
				return err
			}
			return hs.Iterate(func(nonce uint64) error {
				var rs, err = hs.Roots(nonce)
				if err != nil {
					return err
				}
				return rs.Ascend(func(dr *data.Root) error {
					ids = append(ids, id{pk, nonce, dr.Seq})
					return nil
				})
			})
		})
		if err != nil {
			return 0, err.Error()
		}
	}
	for _, x := range ids {
		var r, err = c.Root(x.pk, x.nonce, x.seq)
		if err == nil {
			err = c.Walk(r, func(h nodem.H, _ int) (bool, error) {
				if h == (nodem.H{}) {
					return false, nil
				}
				var _, rc, err = c.Get(h, 0)
				if err == nil && rc == 0 {
					err = errors.New("zero counter")
				}
				return true, err
			})
		}
		if err != nil {
			return n, fmt.Sprintf("root %s/%d/%d is listed, but it is not complete: %v", x.pk.Hex()[:6], x.nonce, x.seq, err)
		}
		n++
	}
	return
}
