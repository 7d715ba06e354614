// C30: limits of connections, one connection with a peer
package main

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/kit"
	"verif/nodem"

	"github.com/skycoin/cxo/node"
	"github.com/skycoin/skycoin/src/cipher"
)

func main() {
	kit.Main("C30", kit.Opts{
		Rule: "a node with random limits of connections and of pending connections, zero included, among nodes and raw peers that connect, do not finish the handshake, time out, claim to be other peers and close, " +
			"one by one and at the same time; nodes that connect with each other from both sides at once by TCP and UDP; a node that connects to itself; the lists are sampled all the time and compared " +
			"with what the peers see at rest; non-trivial if something was refused; distinct by the case and what happened",
		Need: []string{"samples", "established", "refused_by_limit", "refused_by_pending_limit", "no_limit", "after_release", "pending", "handshake_timeouts", "simultaneous", "simultaneous_udp", "same_peer_refused",
			"itself", "stolen_id", "second_address", "own_id"},
		MinCases: 60,
		Watchdog: 14 * time.Minute,
	}, run)
}

func run(k *kit.K) {
	var next int32 = -1
	var wg sync.WaitGroup
	for w := 0; w < 16; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := int(atomic.AddInt32(&next, 1)); i < k.N(600, 8000) && k.Bad() < 6; i = int(atomic.AddInt32(&next, 1)) {
				k.Within("hang", fmt.Sprint("case ", i), 4*time.Minute, func() {
					var t = &test{World: nodem.NewWorld(k, k.Rng(i), fmt.Sprint("case ", i)), k: k, r: k.Rng(i, "r")}
					switch i % 4 {
					case 0:
						t.limits(false)
					case 1:
						t.limits(true)
					case 2:
						t.same()
					default:
						t.identity()
					}
					for _, r := range t.raws {
						r.Close()
					}
					t.Close()
				})
			}
		}()
	}
	wg.Wait()
}

type test struct {
	*nodem.World
	k    *kit.K
	r    *rand.Rand
	mx   sync.Mutex
	raws []*nodem.Raw
	max  int
	pend int
}

func key(r *rand.Rand) nodem.PK {
	var pk, _, _ = cipher.GenerateDeterministicKeyPair([]byte(fmt.Sprint(r.Int63(), r.Int63())))
	return pk
}

// watch the lists of the node; stop returns number of samples
func (t *test) watch(ns ...*nodem.N) (stop func()) {
	var q, done = make(chan struct{}), make(chan struct{})
	go func() {
		defer close(done)
		for i := 0; ; i++ {
			select {
			case <-q:
				t.k.Count("samples", i)
				return
			case <-time.After(200 * time.Microsecond):
			}
			for _, n := range ns {
				t.sample(n)
			}
		}
	}()
	return func() { close(q); <-done }
}

func (t *test) sample(n *nodem.N) {
	var cs = n.Connections()
	if max := n.Config().MaxConnections; max > 0 && len(cs) > max {
		t.Report("limit", "%s has %d connections, the limit is %d\n%s", n.Name, len(cs), max, t.CB())
	}
	var seen = make(map[nodem.PK]*node.Conn)
	for _, c := range cs {
		if c.PeerID() == n.ID() {
			t.Report("itself", "%s has connection %s with itself", n.Name, c)
		}
		if x := seen[c.PeerID()]; x != nil {
			t.Report("same-peer", "%s has connections %s and %s with the same peer\n%s", n.Name, x, c, t.CB())
		}
		seen[c.PeerID()] = c
	}
}

func (t *test) open() (n int) {
	t.mx.Lock()
	defer t.mx.Unlock()
	for _, r := range t.raws {
		if !r.IsClosed() {
			n++
		}
	}
	return
}

// at rest
func (t *test) state(a *nodem.N) string {
	var est, pend = len(a.Connections()), t.open()
	if t.max > 0 && est+pend > t.max {
		return fmt.Sprintf("%s has %d connections and %d pending ones, the limit is %d", a.Name, est, pend, t.max)
	}
	if t.pend > 0 && pend > t.pend {
		return fmt.Sprintf("%s has %d pending connections, the limit is %d", a.Name, pend, t.pend)
	}
	for _, n := range t.Nodes[1:] {
		if (a.Conn(n) == nil) != (n.Conn(a) == nil) {
			return fmt.Sprintf("%s lists connection with %s: %v, %s lists connection with %s: %v", a.Name, n.Name, a.Conn(n) != nil, n.Name, a.Name, n.Conn(a) != nil)
		}
	}
	return ""
}

func (t *test) rest(a *nodem.N) bool {
	var s string
	if !nodem.Wait(10*time.Second, func() bool { s = t.state(a); return s == "" }) {
		t.Report("rest", "%s\n%s", s, t.CB())
		return false
	}
	return true
}

// is there a place for one more
func (t *test) free(a *nodem.N) (ok bool, why string) {
	var est, pend = len(a.Connections()), t.open()
	if t.max > 0 && est+pend >= t.max {
		return false, "refused_by_limit"
	}
	if t.pend > 0 && pend >= t.pend {
		return false, "refused_by_pending_limit"
	}
	return true, ""
}

func (t *test) limits(parallel bool) {
	var r = t.r
	t.max, t.pend = []int{0, 1, 2, 3, 5}[r.Intn(5)], []int{0, 0, 1, 2, 3}[r.Intn(5)]
	var timeouts = r.Intn(4) == 0
	var tm = time.Minute
	if timeouts {
		tm = 300 * time.Millisecond
	}
	var a = t.Node(nodem.Opt{Timeout: tm, Conf: func(c *node.Config) { c.MaxConnections, c.MaxPendingConnections = t.max, t.pend }})
	t.Logf("limits %d, %d, parallel %v, timeouts %v", t.max, t.pend, parallel, timeouts)
	for i := 2 + r.Intn(5); i > 0; i-- {
		t.Node(nodem.Opt{Timeout: time.Minute, Conf: func(c *node.Config) { c.MaxConnections, c.MaxPendingConnections = 0, 0 }})
	}
	if t.max == 0 {
		t.k.Count("no_limit", 1)
	}
	var stop = t.watch(a)
	var refused bool
	if parallel {
		refused = t.storm(a)
	} else {
		for j := 6 + r.Intn(14); j > 0 && t.Bad() == 0; j-- {
			refused = t.step(a, timeouts) || refused
		}
	}
	t.rest(a)
	if timeouts && t.Bad() == 0 && t.open() > 0 {
		// they are dropped
		var n = t.open()
		if !nodem.Wait(20*time.Second, func() bool { return t.open() == 0 }) {
			t.Report("handshake-timeout", "%d pending connections are not closed by timeout", t.open())
		}
		t.k.Count("handshake_timeouts", n)
	}
	// release everything, it has to accept again
	if t.Bad() == 0 {
		t.mx.Lock()
		for _, r := range t.raws {
			r.Close()
		}
		t.mx.Unlock()
		for _, c := range a.Connections() {
			c.Close()
		}
		var err error
		if !nodem.Wait(10*time.Second, func() bool { _, err = t.Nodes[1].Connect(a, false); return err == nil }) {
			t.Report("after-release", "%s has no connections, but %s can't connect: %v\n%s", a.Name, t.Nodes[1].Name, err, t.CB())
		}
		t.k.Count("after_release", 1)
	}
	stop()
	t.k.Count("established", int(atomic.LoadInt32(&a.Opened)))
	t.k.Case(refused, strip(t.Log()))
}

func strip(l string) string {
	var ls = strings.Split(l, "\n")
	for i := range ls {
		if len(ls[i]) > 7 {
			ls[i] = ls[i][7:]
		}
	}
	return strings.Join(ls, "\n")
}

func (t *test) raw(a *nodem.N) (r *nodem.Raw) {
	var err error
	if r, err = nodem.Dial(a.TCPAddr(), nil); err != nil {
		return nil
	}
	t.mx.Lock()
	t.raws = append(t.raws, r)
	t.mx.Unlock()
	return
}

func (t *test) step(a *nodem.N, timeouts bool) (refused bool) {
	var r = t.r
	var n = t.Nodes[1+r.Intn(len(t.Nodes)-1)]
	switch x := r.Intn(10); {
	case x < 5 && !timeouts: // connect
		if a.Conn(n) != nil {
			return
		}
		var ok, why = t.free(a)
		var in = r.Intn(2) == 0
		t.Logf("connect %s, in %v: free %v %s", n.Name, in, ok, why)
		var try = func() (err error) {
			if in {
				_, err = n.Connect(a, false)
			} else {
				_, err = a.Connect(n, false)
			}
			return
		}
		if !ok {
			refused = true
			t.k.Count(why, 1)
			if err := try(); err == nil {
				// the incoming can be refused after the handshake only if it's closed at once
				if !nodem.Wait(10*time.Second, func() bool { return a.Conn(n) == nil && n.Conn(a) == nil }) {
					t.Report("not-refused", "%s accepts %s, but limits are reached (%s)\n%s", a.Name, n.Name, why, t.CB())
				}
			}
			if a.Conn(n) != nil || n.Conn(a) != nil {
				t.Report("not-refused", "%s lists %s, but limits are reached (%s)\n%s", a.Name, n.Name, why, t.CB())
			}
			return
		}
		var err error
		if !nodem.Wait(10*time.Second, func() bool { err = try(); return err == nil }) {
			t.Report("refused", "connection of %s is refused though limits are not reached: %v; %d connections, %d pending\n%s", n.Name, err, len(a.Connections()), t.open(), t.CB())
		}
	case x < 7: // pending one
		var ok, why = t.free(a)
		t.Logf("pending, free %v %s", ok, why)
		var p = t.raw(a)
		if p == nil {
			return
		}
		if !ok {
			refused = true
			t.k.Count(why, 1)
			if !timeouts && !p.Closed(10*time.Second) {
				t.Report("not-refused", "a pending connection is accepted, but limits are reached (%s)", why)
			}
			return
		}
		t.k.Count("pending", 1)
		if p.Closed(20*time.Millisecond) && !timeouts {
			// a closed one can be not removed yet
			if !nodem.Wait(10*time.Second, func() bool { p = t.raw(a); return p != nil && !p.Closed(20*time.Millisecond) }) {
				t.Report("refused", "a pending connection is refused though limits are not reached: %d connections, %d pending\n%s", len(a.Connections()), t.open(), t.CB())
			}
		}
	case x < 8: // finish or drop a pending one
		t.mx.Lock()
		var p *nodem.Raw
		for _, q := range t.raws {
			if !q.IsClosed() {
				p = q
			}
		}
		t.mx.Unlock()
		if p == nil {
			return
		}
		t.Logf("drop pending")
		p.Close()
		p.Closed(10 * time.Second)
		time.Sleep(2 * time.Millisecond)
	default:
		if cs := a.Connections(); len(cs) > 0 {
			t.Logf("close")
			var c = cs[0]
			if r.Intn(2) == 0 {
				c.Connection.Close()
			} else {
				c.Close()
			}
			if !nodem.Wait(10*time.Second, func() bool { return !listed(a, c) }) {
				t.Report("not-closed", "closed connection %s is listed\n%s", c, t.CB())
			}
		}
	}
	t.rest(a)
	return
}

func listed(a *nodem.N, x *node.Conn) bool {
	for _, c := range a.Connections() {
		if c == x {
			return true
		}
	}
	return false
}

// all at the same time
func (t *test) storm(a *nodem.N) (refused bool) {
	var wg sync.WaitGroup
	var bad int32
	var want int
	var quiet = t.r.Intn(2) == 0 // no pending ones
	for _, n := range t.Nodes[1:] {
		want++
		for j := 1 + t.r.Intn(2); j > 0; j-- {
			wg.Add(1)
			go func(n *nodem.N, in bool) {
				defer wg.Done()
				var err error
				if in {
					_, err = n.Connect(a, false)
				} else {
					_, err = a.Connect(n, false)
				}
				if err != nil {
					atomic.AddInt32(&bad, 1)
				}
			}(n, t.r.Intn(2) == 0)
		}
		if !quiet && t.r.Intn(2) == 0 {
			wg.Add(1)
			go func() {
				defer wg.Done()
				t.raw(a)
			}()
		}
	}
	wg.Wait()
	if t.Bad() > 0 || !t.rest(a) {
		return true
	}
	if quiet && t.max == 0 && t.pend == 0 {
		// everybody is connected
		for _, n := range t.Nodes[1:] {
			if !nodem.Wait(10*time.Second, func() bool { return a.Conn(n) != nil && n.Conn(a) != nil }) {
				t.Report("refused", "%s is not connected though there are no limits\n%s", n.Name, t.CB())
				return
			}
		}
	}
	if bad > 0 {
		t.k.Count("refused_in_parallel", int(bad))
	}
	t.Logf("refused %d, connected %d, pending %d", bad, len(a.Connections()), t.open())
	return bad > 0
}

// peers that connect from both sides
func (t *test) same() {
	var r = t.r
	var n = 2 + r.Intn(2)
	for i := 0; i < n; i++ {
		t.Node(nodem.Opt{UDP: true, Timeout: 20 * time.Second})
	}
	var stop = t.watch(t.Nodes...)
	var rounds = 1 + r.Intn(4)
	var udps = r.Intn(3) == 0
	var refused int32
	for j := 0; j < rounds && t.Bad() == 0; j++ {
		var wg sync.WaitGroup
		var start = make(chan struct{})
		for a := range t.Nodes {
			for b := range t.Nodes {
				if a == b {
					continue
				}
				for x := 1 + r.Intn(2); x > 0; x-- {
					var udp = udps && r.Intn(2) == 0
					wg.Add(1)
					go func(a, b *nodem.N, udp bool, d time.Duration) {
						defer wg.Done()
						<-start
						time.Sleep(d)
						if udp {
							t.k.Count("simultaneous_udp", 1)
						}
						if _, err := a.Connect(b, udp); err != nil {
							atomic.AddInt32(&refused, 1)
						}
					}(t.Nodes[a], t.Nodes[b], udp, time.Duration(r.Intn(3)*r.Intn(400))*time.Microsecond)
				}
			}
		}
		close(start)
		wg.Wait()
		t.k.Count("simultaneous", 1)
		var bad string
		if !nodem.Wait(15*time.Second, func() bool { bad = t.paired(); return bad == "" }) {
			t.Report("simultaneous", "%s, udp %v\n%s", bad, udps, t.CB())
			break
		}
		t.Logf("round %d: udp %v, %d refused", j, udps, refused)
		// again
		if j+1 < rounds {
			for _, a := range t.Nodes {
				for _, c := range a.Connections() {
					if c.IsTCP() || udps {
						c.Close()
					}
				}
			}
			if !nodem.Wait(10*time.Second, func() bool {
				for _, a := range t.Nodes {
					if len(a.Connections()) > 0 {
						return false
					}
				}
				return true
			}) {
				t.Report("not-closed", "connections are listed after Close\n%s", t.CB())
			}
		}
	}
	stop()
	t.k.Count("same_peer_refused", int(refused))
	t.k.Case(refused > 0, strip(t.Log()))
}

// every two nodes have one connection
func (t *test) paired() string {
	for i, a := range t.Nodes {
		for j, b := range t.Nodes {
			if i == j {
				continue
			}
			var x, y = a.Conn(b), b.Conn(a)
			if x == nil || y == nil {
				return fmt.Sprintf("n%d and n%d connected with each other, listed: %v, %v", i, j, x != nil, y != nil)
			}
			if x.IsTCP() != y.IsTCP() || x.IsIncoming() == y.IsIncoming() {
				return fmt.Sprintf("n%d and n%d list different connections: %s, %s", i, j, x, y)
			}
		}
		if len(a.Connections()) != len(t.Nodes)-1 {
			return fmt.Sprintf("n%d has %d connections with %d peers", i, len(a.Connections()), len(t.Nodes)-1)
		}
	}
	return ""
}

// who is who
func (t *test) identity() {
	var r = t.r
	var a = t.Node(nodem.Opt{UDP: true, Timeout: 20 * time.Second})
	var b = t.Node(nodem.Opt{UDP: true, Timeout: 20 * time.Second})
	var stop = t.watch(a, b)
	defer stop()
	for j := 3 + r.Intn(6); j > 0 && t.Bad() == 0; j-- {
		switch r.Intn(5) {
		case 0:
			t.Logf("itself")
			t.k.Count("itself", 1)
			var err error
			if r.Intn(2) == 0 {
				_, err = a.TCP().Connect(strings.Replace(a.TCPAddr(), "127.0.0.1", "localhost", r.Intn(2)))
			} else {
				_, err = a.UDP().Connect(a.UDPAddr())
			}
			if err == nil {
				t.Report("itself", "Connect to itself returns no error")
			}
			t.only(a, b)
		case 1:
			t.Logf("own id")
			t.k.Count("own_id", 1)
			t.impostor(a, b, a.ID())
		case 2:
			t.Logf("id of a peer, connected %v", a.Conn(b) != nil)
			if a.Conn(b) == nil {
				continue
			}
			t.k.Count("stolen_id", 1)
			t.impostor(a, b, b.ID())
		case 3:
			t.Logf("other address, connected %v", a.Conn(b) != nil)
			t.k.Count("second_address", 1)
			var was = a.Conn(b)
			var _, err = b.TCP().Connect(strings.Replace(a.TCPAddr(), "127.0.0.1", "localhost", 1))
			if was == nil && err != nil {
				t.Report("refused", "%v", err)
			}
			if was != nil && a.Conn(b) != was {
				t.Report("same-peer", "connection with %s is replaced", b.Name)
			}
			nodem.Wait(10*time.Second, func() bool { return a.Conn(b) != nil })
		case 4:
			if x := a.Conn(b); x != nil {
				t.Logf("close")
				x.Close()
				if y := b.Conn(a); y != nil {
					y.Close()
				}
				continue
			}
			t.Logf("connect")
			var _, err = a.Connect(b, false)
			if err != nil {
				t.Report("refused", "%v", err)
			}
			nodem.Wait(10*time.Second, func() bool { return b.Conn(a) != nil })
		}
	}
	t.k.Case(true, strip(t.Log()))
}

// there are no other connections
func (t *test) only(a, b *nodem.N) {
	var bad string
	if !nodem.Wait(10*time.Second, func() bool {
		bad = ""
		for _, c := range a.Connections() {
			if c.PeerID() != b.ID() {
				bad = fmt.Sprintf("%s lists connection %s with %s", a.Name, c, c.PeerID().Hex()[:7])
			}
		}
		return bad == ""
	}) {
		t.Report("itself", "%s\n%s", bad, t.CB())
	}
}

func (t *test) impostor(a, b *nodem.N, id nodem.PK) {
	var was = a.Conn(b)
	var p = t.raw(a)
	if p == nil {
		return
	}
	if _, err := p.Hello(id); err == nil && !p.Closed(10*time.Second) {
		t.Report("same-peer", "a peer with used id is accepted (own: %v)\n%s", id == a.ID(), t.CB())
	}
	if !p.Closed(10 * time.Second) {
		t.Report("not-closed", "refused connection is not closed")
	}
	if was != nil && a.Conn(b) != was {
		t.Report("same-peer", "connection with %s is lost because of other peer with the id\n%s", b.Name, t.CB())
	}
	t.only(a, b)
}
