package main

import (
	"fmt"
	"math"
	"math/rand"
	gonet "net"
	"sync"
	"sync/atomic"
	"time"

	"verif/kit"
	"verif/nodem"

	"github.com/skycoin/cxo/node"
	"github.com/skycoin/cxo/node/msg"
)

// a node among raw peers
type single struct {
	*nodem.World
	k       *kit.K
	r       *rand.Rand
	n       *nodem.N
	addr    string
	feed    nodem.PK
	cfg     node.SwarmConfig
	s       *node.Swarm
	timeout time.Duration // of responses
	id      nodem.PK      // of the raw peer
	p       *nodem.Raw
	rq      chan uint32 // requests of peers

	mx                      sync.Mutex
	added, updated, removed map[nodem.PK]int
}

func (t *single) run() {
	var r = t.r
	t.added, t.updated, t.removed = make(map[nodem.PK]int), make(map[nodem.PK]int), make(map[nodem.PK]int)
	t.addr, t.feed = nodem.FreePort(), newKey(r)
	var ev = func(m map[nodem.PK]int) func(nodem.PK, node.Peer) {
		return func(f nodem.PK, p node.Peer) {
			if f != t.feed {
				t.Report("callback", "callback of feed %s", name(f))
			}
			t.mx.Lock()
			defer t.mx.Unlock()
			m[p.PubKey]++
		}
	}
	// silent peers hold dials
	if t.timeout = 10 * time.Second; r.Intn(2) == 0 {
		t.timeout = time.Second
	}
	t.n = t.Node(nodem.Opt{Timeout: t.timeout, Conf: func(c *node.Config) {
		c.TCP.Listen = t.addr
		c.OnPeerAdded, c.OnPeerUpdated, c.OnPeerRemoved = ev(t.added), ev(t.updated), ev(t.removed)
	}})
	if err := t.n.Share(t.feed); err != nil {
		t.Report("share", "%v", err)
		return
	}
	switch r.Intn(3) {
	case 0:
		t.list()
	case 1:
		t.expire()
	default:
		t.dial()
	}
}

func (t *single) join() bool {
	var err error
	if t.s, err = t.n.JoinSwarm(t.feed, t.cfg); err != nil {
		t.Report("join", "%v", err)
		return false
	}
	t.Logf("joined: %+v", t.cfg)
	return true
}

// connect the raw peer, subscribed
func (t *single) connect() bool {
	t.id, t.rq = newKey(t.r), make(chan uint32, 100)
	var rq = t.rq
	var err error
	if t.p, err = nodem.Dial(t.addr, func(f nodem.Frame) bool {
		switch m := f.M.(type) {
		case *msg.RqPeers:
			if m.Feed != t.feed {
				t.Report("request", "peers of another feed are requested")
			}
			select {
			case rq <- f.Seq:
			default:
			}
			return true
		}
		return false
	}); err != nil {
		t.Report("dial", "%v", err)
		return false
	}
	if _, err = t.p.Hello(t.id); err != nil {
		t.Report("handshake", "%v", err)
		return false
	}
	var m, e = t.p.Ask(&msg.Sub{Feed: t.feed}, 20*time.Second)
	if _, ok := m.(*msg.Ok); !ok || e != nil {
		t.Report("subscribe", "%T, %v", m, e)
		return false
	}
	return true
}

// next request
func (t *single) request() (seq uint32, ok bool) {
	for {
		select {
		case seq = <-t.rq:
			if len(t.rq) > 0 {
				continue // old, it can be expired
			}
			return seq, true
		case <-time.After(30 * time.Second):
			t.Report("no-request", "the node doesn't request peers, it knows %d", len(t.s.Peers()))
			return
		}
	}
}

func (t *single) peers() (m map[nodem.PK]info, last map[nodem.PK]node.Peer) {
	m, last = make(map[nodem.PK]info), make(map[nodem.PK]node.Peer)
	for _, p := range t.s.Peers() {
		if _, ok := m[p.PubKey]; ok {
			t.Report("repeated", "peer %s is repeated in the list", name(p.PubKey))
		}
		m[p.PubKey] = infoOf(p)
		last[p.PubKey] = p
	}
	return
}

func (t *single) info() (i info) {
	i.Tcp = fmt.Sprintf("127.0.0.1:%d", 1+t.r.Intn(9))
	if t.r.Intn(3) == 0 {
		i.Udp = fmt.Sprintf("10.1.2.%d:%d", t.r.Intn(256), t.r.Intn(65536))
	}
	if t.r.Intn(2) == 0 {
		i.Meta = fmt.Sprint("m", t.r.Intn(1000))
	}
	return
}

func toMsg(pk nodem.PK, i info) msg.PeerInfo {
	return msg.PeerInfo{PubKey: pk, Metadata: []byte(i.Meta), TCPAddr: i.Tcp, UDPAddr: i.Udp}
}

// the list against the model, no dials
func (t *single) list() {
	var r = t.r
	t.cfg = node.SwarmConfig{RequestPeerRate: 10 * time.Millisecond, OutgoingConnRate: time.Hour}
	if r.Intn(2) == 0 {
		t.cfg.MaxPeers = uint64(2 + r.Intn(12))
	}
	if r.Intn(2) == 0 {
		t.cfg.PeersPerResponse = uint64(1 + r.Intn(8))
		if r.Intn(4) == 0 {
			t.cfg.PeersPerResponse = math.MaxUint64
		}
	}
	if r.Intn(3) == 0 {
		t.cfg.OutgoingConnRate = -1
	}
	if !t.join() || !t.connect() {
		return
	}
	defer func() { t.p.Close() }()
	var model = make(map[nodem.PK]info)
	var pks []nodem.PK
	for i := 0; i < 4+r.Intn(12); i++ {
		pks = append(pks, newKey(r))
	}
	if r.Intn(2) == 0 { // the node knows the raw peer
		pks = append(pks, t.id)
	}
	var max = int(t.cfg.MaxPeers)
	if max == 0 {
		max = 1000
	}
	var adds, updates = make(map[nodem.PK]int), make(map[nodem.PK]int)
	var sig string
	for step := 4 + r.Intn(20); step > 0 && t.Bad() == 0; step-- {
		switch r.Intn(9) {
		case 0: // by the API
			var pk, i = pks[r.Intn(len(pks))], t.info()
			var _, ok = model[pk]
			var err = t.s.AddPeer(pk, []byte(i.Meta), i.Tcp, i.Udp)
			if (err == nil) != (ok || len(model) < max) {
				t.Report("add-peer", "AddPeer (known: %v, %d of %d): %v", ok, len(model), max, err)
				return
			}
			if err == nil {
				model[pk] = i
			}
		case 1:
			var pk = pks[r.Intn(len(pks))]
			var _, ok = model[pk]
			if err := t.s.RemovePeer(pk); (err == nil) != ok {
				t.Report("remove-peer", "RemovePeer (known: %v): %v", ok, err)
				return
			}
			delete(model, pk)
			t.k.Count("removed", 1)
		case 2: // wrong by the API
			var pk, i = pks[r.Intn(len(pks))], t.info()
			switch r.Intn(4) {
			case 0:
				pk = nodem.PK{}
			case 1:
				pk = t.n.ID()
			case 2:
				i.Tcp = t.addr
			default:
				i.Tcp = []string{"host:80", "127.0.0.1", "1.2.3.4:99999", "1.2.3:1", ":80", "1.2.3.4:-1", "1.2.3.4:x"}[r.Intn(7)]
			}
			if err := t.s.AddPeer(pk, nil, i.Tcp, i.Udp); err == nil {
				t.Report("invalid", "AddPeer of %s %v", name(pk), i)
				return
			}
		case 3: // ask
			t.ask(t.p, model, nil)
		default:
			if len(model) >= max {
				t.k.Count("full", 1)
				if r.Intn(2) == 0 {
					break // it doesn't ask
				}
				for pk := range model {
					t.s.RemovePeer(pk)
					delete(model, pk)
					break
				}
				t.drain()
			}
			if !t.answer(model, pks, max, adds, updates) {
				return
			}
		}
		var got, _ = t.peers()
		if !same(got, model) {
			t.Report("list", "the list is %v, not %v", got, model)
			return
		}
		sig += fmt.Sprint(len(model), " ")
	}
	// callbacks
	if !nodem.Wait(20*time.Second, func() bool {
		t.mx.Lock()
		defer t.mx.Unlock()
		return counts(t.added, adds) && counts(t.updated, updates)
	}) {
		t.mx.Lock()
		t.Report("callbacks", "added %v, must be %v; updated %v, must be %v", t.added, adds, t.updated, updates)
		t.mx.Unlock()
	}
	t.k.Case(true, "list "+sig)
	t.leave(model)
}

func counts(a, b map[nodem.PK]int) bool {
	for k, n := range a {
		if b[k] != n {
			return false
		}
	}
	return len(a) == len(b)
}

func same(a, b map[nodem.PK]info) bool {
	for k, i := range a {
		if x, ok := b[k]; !ok || x != i {
			return false
		}
	}
	return len(a) == len(b)
}

func (t *single) drain() {
	for len(t.rq) > 0 {
		<-t.rq
	}
}

// answer for a request
func (t *single) answer(model map[nodem.PK]info, pks []nodem.PK, max int, adds, updates map[nodem.PK]int) bool {
	var r = t.r
	t.drain()
	var seq, ok = t.request()
	if !ok {
		return false
	}
	switch r.Intn(8) {
	case 0: // nothing useful
		var i = t.info()
		switch r.Intn(3) {
		case 0:
			t.p.Send(seq, &msg.Peers{Feed: newKey(r), List: []msg.PeerInfo{toMsg(pks[0], i)}})
		case 1:
			t.p.Send(seq, &msg.Err{Err: "no"})
		default:
			t.p.Send(seq, &msg.Ok{})
		}
		// and pushed without a request
		t.p.Send(0, &msg.Peers{Feed: t.feed, List: []msg.PeerInfo{toMsg(pks[0], i)}})
		time.Sleep(time.Duration(10+r.Intn(20)) * time.Millisecond)
		t.k.Count("foreign_refused", 1)
		if t.p.IsClosed() { // a message that is not an answer closes it
			return t.connect()
		}
		return true
	}
	// every peer once
	var list []msg.PeerInfo
	var mark = newKey(r) // the last one is always good
	var fresh = make(map[nodem.PK]info)
	for _, j := range r.Perm(len(pks))[:r.Intn(len(pks)+1)] {
		var pk, i = pks[j], t.info()
		switch r.Intn(10) {
		case 0:
			list = append(list, toMsg(t.n.ID(), i))
			t.k.Count("own_refused", 1)
			continue
		case 1:
			i.Tcp = t.addr
			list = append(list, toMsg(pk, i))
			t.k.Count("own_refused", 1)
			continue
		case 2:
			list = append(list, toMsg(nodem.PK{}, i))
			t.k.Count("invalid_refused", 1)
			continue
		case 3:
			i.Tcp = []string{"host:80", "127.0.0.1", "1.2.3.4:99999", "1.2.3:1", ":80", "1.2.3.4:-1", "a b:1"}[r.Intn(7)]
			list = append(list, toMsg(pk, i))
			t.k.Count("invalid_refused", 1)
			continue
		case 4:
			i.Udp = "example.com:1"
			list = append(list, toMsg(pk, i))
			t.k.Count("invalid_refused", 1)
			continue
		case 5:
			if x, ok := model[pk]; ok {
				i = x // the same
			}
		}
		list = append(list, toMsg(pk, i))
		fresh[pk] = i
	}
	// something has to change, to see that it is done
	var known bool
	for pk := range model {
		if _, ok := fresh[pk]; !ok && r.Intn(2) == 0 {
			mark, known = pk, true
			break
		}
	}
	if known || len(model) < max {
		var i = t.info()
		i.Meta = fmt.Sprint("mark ", r.Int63())
		list = append(list, toMsg(mark, i))
		fresh[mark] = i
	}
	var must = make(map[nodem.PK]info) // and others up to the limit
	var more int
	for pk, i := range model {
		must[pk] = i
	}
	for pk, i := range fresh {
		if x, ok := model[pk]; ok {
			must[pk] = i
			if x != i {
				updates[pk]++
			}
		} else {
			more++
		}
	}
	var want = len(model) + more
	if want > max {
		want = max
	}
	t.Logf("answer of %d peers, %d new, %d known, must be %d", len(list), more, len(model), want)
	t.p.Send(seq, &msg.Peers{Feed: t.feed, List: list})
	var check = func() string {
		var got, _ = t.peers()
		if len(got) != want {
			return fmt.Sprintf("%d peers, not %d", len(got), want)
		}
		for pk, i := range must {
			if x, ok := got[pk]; !ok || x != i {
				return fmt.Sprintf("peer %s is %v %v, not %v", name(pk), ok, x, i)
			}
		}
		for pk, i := range got {
			if _, ok := must[pk]; ok {
				continue
			}
			if x, ok := fresh[pk]; !ok || x != i {
				return fmt.Sprintf("peer %s is %v, it was told: %v %v", name(pk), i, ok, x)
			}
		}
		return ""
	}
	if !nodem.Wait(20*time.Second, func() bool { return check() == "" }) {
		t.Report("answer", "after an answer: %s", check())
		return false
	}
	var got, _ = t.peers()
	for pk := range got {
		if _, ok := model[pk]; !ok {
			adds[pk]++
		} else if got[pk] != model[pk] {
			t.k.Count("updated", 1)
		}
	}
	for pk := range model {
		delete(model, pk)
	}
	for pk, i := range got {
		model[pk] = i
	}
	t.k.Count("answers", 1)
	return true
}

// ask the node
func (t *single) ask(p *nodem.Raw, model map[nodem.PK]info, failed map[nodem.PK]bool) {
	var m, err = p.Ask(&msg.RqPeers{Feed: t.feed}, 20*time.Second)
	var x, ok = m.(*msg.Peers)
	if !ok || err != nil {
		t.Report("ask", "answer is %T, %v", m, err)
		return
	}
	var max = int(t.cfg.PeersPerResponse)
	if max == 0 {
		max = 30
	}
	if max < 0 {
		max = math.MaxInt32
	}
	var can int
	for pk := range model {
		if pk != t.id && !failed[pk] {
			can++
		}
	}
	if can > max {
		can = max
	}
	if x.Feed != t.feed || len(x.List) != can {
		t.Report("told", "the node tells of %d peers, not of %d (it knows %d)", len(x.List), can, len(model))
		return
	}
	var seen = make(map[nodem.PK]bool)
	for _, pi := range x.List {
		var i, ok = model[pi.PubKey]
		switch {
		case !ok || i != (info{pi.TCPAddr, pi.UDPAddr, string(pi.Metadata)}):
			t.Report("told", "the node tells of %s %v, it knows %v %v", name(pi.PubKey), pi, ok, i)
		case seen[pi.PubKey]:
			t.Report("told", "the node tells of %s twice", name(pi.PubKey))
		case pi.PubKey == t.id:
			t.Report("told", "the node tells the peer of itself")
		case failed[pi.PubKey]:
			t.Report("told", "the node tells of %s it can't connect to", name(pi.PubKey))
		default:
			seen[pi.PubKey] = true
			continue
		}
		return
	}
	t.k.Count("asked", 1)
	// not in the swarm
	if t.r.Intn(4) == 0 {
		m, err = p.Ask(&msg.RqPeers{Feed: newKey(t.r)}, 20*time.Second)
		if _, ok := m.(*msg.Err); !ok || err != nil {
			t.Report("ask", "answer for another feed is %T, %v", m, err)
		}
		t.k.Count("not_in_swarm", 1)
	}
}

// leave the swarm
func (t *single) leave(model map[nodem.PK]info) {
	if t.Bad() > 0 {
		return
	}
	if err := t.n.LeaveSwarm(t.feed); err != nil {
		t.Report("leave", "%v", err)
		return
	}
	if _, ok := t.n.InSwarm(t.feed); ok || t.n.LeaveSwarm(t.feed) == nil {
		t.Report("leave", "the node is still in the swarm")
		return
	}
	var m, err = t.p.Ask(&msg.RqPeers{Feed: t.feed}, 20*time.Second)
	if _, ok := m.(*msg.Err); !ok || err != nil {
		t.Report("leave", "answer for the left swarm is %T, %v", m, err)
		return
	}
	// what was sent before can be late
	var n int
	for i := 0; i < 20; i++ {
		time.Sleep(30 * time.Millisecond)
		t.drain()
		time.Sleep(60 * time.Millisecond)
		if n = len(t.rq); n <= 1 {
			break
		}
	}
	if n > 1 {
		t.Report("leave", "%d requests after the swarm is left", n)
		return
	}
	t.k.Count("left", 1)
	var old = t.s
	if !t.join() {
		return
	}
	if x, err := t.n.JoinSwarm(t.feed, node.SwarmConfig{}); x != t.s || err != nil || x == old {
		t.Report("join", "second JoinSwarm: same %v, %v", x == t.s, err)
		return
	}
	if n := len(t.s.Peers()); n > 0 {
		t.Report("join", "new swarm knows %d peers", n)
		return
	}
	t.drain()
	if _, ok := t.request(); ok {
		t.k.Count("rejoined", 1)
	}
}

// expiration
func (t *single) expire() {
	var r = t.r
	var period = time.Duration(150+r.Intn(300)) * time.Millisecond
	t.cfg = node.SwarmConfig{RequestPeerRate: 10 * time.Millisecond, OutgoingConnRate: time.Hour,
		PeerExpirePeriod: period, ClearOldPeersRate: time.Duration(5+r.Intn(60)) * time.Millisecond}
	if !t.join() || !t.connect() {
		return
	}
	defer func() { t.p.Close() }()
	var pks []nodem.PK
	var is = make(map[nodem.PK]info)
	for i := 0; i < 3+r.Intn(4); i++ {
		pks = append(pks, newKey(r))
		is[pks[i]] = t.info()
	}
	var last map[nodem.PK]node.Peer
	var at time.Time
	var gone = make(map[nodem.PK]int)
	var expired, kept int
	var look = func() bool {
		var now = time.Now() // not later than the list is taken
		var _, cur = t.peers()
		var after = time.Now()
		for pk, p := range last {
			var x, ok = cur[pk]
			if !ok {
				gone[pk]++
				expired++
				if after.Sub(p.LastSeen) <= period && after.Sub(at) < period {
					t.Report("expire", "peer %s is removed in %v, the period is %v", name(pk), after.Sub(p.LastSeen), period)
					return false
				}
			} else if x.LastSeen.Before(p.LastSeen) {
				t.Report("expire", "peer %s was seen earlier than before", name(pk))
				return false
			}
		}
		for pk, p := range cur {
			if d := now.Sub(p.LastSeen); d > period+t.cfg.ClearOldPeersRate+10*time.Second {
				t.Report("expire", "peer %s is not removed, it was seen %v ago, the period is %v", name(pk), d, period)
				return false
			}
		}
		last, at = cur, now
		return true
	}
	var end = time.Now().Add(time.Duration(600+r.Intn(1200)) * time.Millisecond)
	for time.Now().Before(end) && t.Bad() == 0 {
		if r.Intn(3) > 0 { // some are told of again
			var list []msg.PeerInfo
			for i, pk := range pks {
				if i < 6 && i%2 == 0 || r.Intn(8) == 0 {
					list = append(list, toMsg(pk, is[pk]))
				}
			}
			if r.Intn(4) == 0 {
				var pk = pks[r.Intn(len(pks))]
				var i = is[pk]
				if err := t.s.AddPeer(pk, []byte(i.Meta), i.Tcp, i.Udp); err != nil {
					t.Report("add-peer", "%v", err)
					return
				}
			}
			t.drain()
			var seq, ok = t.request()
			if !ok {
				return
			}
			var before = time.Now()
			var mark = newKey(r)
			pks, is[mark] = append(pks, mark), info{Tcp: "127.0.0.1:9"}
			t.p.Send(seq, &msg.Peers{Feed: t.feed, List: append(list, toMsg(mark, is[mark]))})
			nodem.Wait(20*time.Second, func() bool {
				var _, cur = t.peers()
				var d = time.Since(before)
				if _, ok := cur[mark]; !ok {
					return d > period // it can be removed already
				}
				for _, pi := range list {
					if p, ok := cur[pi.PubKey]; !ok && d <= period || ok && p.LastSeen.Before(before) {
						t.Report("seen", "peer %s of the answer is not seen", name(pi.PubKey))
					}
				}
				t.k.Count("seen", 1)
				return true
			})
			kept += len(list)
		}
		if !look() {
			return
		}
		time.Sleep(time.Duration(r.Intn(40)) * time.Millisecond)
	}
	if !nodem.Wait(30*time.Second, func() bool { return len(t.s.Peers()) == 0 }) {
		t.Report("expire", "%d peers never expire", len(t.s.Peers()))
		return
	}
	t.k.Count("expired", expired)
	t.k.Count("not_expired", kept)
	time.Sleep(20 * time.Millisecond)
	t.mx.Lock()
	defer t.mx.Unlock()
	for pk, n := range t.removed {
		if n > t.added[pk]+len(pks)+100 || is[pk] == (info{}) {
			t.Report("callbacks", "peer %s is removed %d times", name(pk), n)
			return
		}
	}
	for pk, n := range gone {
		if t.removed[pk] < n {
			t.Report("callbacks", "peer %s expires %d times, the callback was called %d times", name(pk), n, t.removed[pk])
			return
		}
	}
	t.k.Case(expired > 0, fmt.Sprint("expire", period, expired, kept))
}

// a raw peer that listens
type lis struct {
	l      gonet.Listener
	pk     nodem.PK
	kind   int // 0 - good, 1 - refuses the subscription, 2 - closes, 3 - silent, 4 - nobody listens
	mx     sync.Mutex
	ps     []*nodem.Raw
	cur    int32 // connected
	total  int32
	subs   int32
	closed bool
	slow   time.Duration
	now    int32 // handshakes
}

func (x *lis) close() {
	x.l.Close()
	x.mx.Lock()
	defer x.mx.Unlock()
	x.closed = true
	for _, p := range x.ps {
		p.Close()
	}
}

func (t *single) serve(x *lis) {
	for {
		var c, err = x.l.Accept()
		if err != nil {
			return
		}
		atomic.AddInt32(&x.total, 1)
		if x.kind == 2 {
			c.Close()
			continue
		}
		if x.kind == 3 {
			x.mx.Lock()
			x.ps = append(x.ps, &nodem.Raw{C: c})
			x.mx.Unlock()
			continue
		}
		go func() {
			var p *nodem.Raw
			var on atomic.Value
			p = nodem.NewRaw(c, func(f nodem.Frame) bool {
				if h, ok := on.Load().(func(nodem.Frame) bool); ok {
					return h(f)
				}
				return false
			})
			x.mx.Lock()
			x.ps = append(x.ps, p)
			if x.closed {
				p.Close()
			}
			x.mx.Unlock()
			var handle = func(f nodem.Frame) bool {
				switch m := f.M.(type) {
				case *msg.Sub:
					atomic.AddInt32(&x.subs, 1)
					if m.Feed != t.feed {
						t.Report("dial", "subscription to another feed")
					}
					if x.kind == 1 {
						p.Send(f.Seq, &msg.Err{Err: "refused"})
					} else {
						p.Send(f.Seq, &msg.Ok{})
					}
				case *msg.RqPeers:
					p.Send(f.Seq, &msg.Peers{Feed: m.Feed})
				}
				return true
			}
			on.Store(func(f nodem.Frame) bool {
				if _, ok := f.M.(*msg.Syn); ok {
					return false
				}
				return handle(f)
			})
			if n := atomic.AddInt32(&x.now, 1); n > 1 && t.timeout > 5*time.Second {
				t.Report("dial", "the node dials %s, but it's still dialing it", name(x.pk))
			}
			time.Sleep(x.slow)
			atomic.AddInt32(&x.now, -1)
			if _, err := p.Welcome(x.pk); err != nil {
				return
			}
			atomic.AddInt32(&x.cur, 1)
			<-p.Done
			atomic.AddInt32(&x.cur, -1)
		}()
	}
}

// connections
func (t *single) dial() {
	var r = t.r
	t.cfg = node.SwarmConfig{RequestPeerRate: time.Hour, OutgoingConnRate: time.Duration(5+r.Intn(40)) * time.Millisecond}
	t.cfg.MaxConns = uint64(1 + r.Intn(6))
	var raw = r.Intn(2) == 0
	if !t.join() || raw && !t.connect() {
		return
	}
	if raw {
		defer func() { t.p.Close() }()
	}
	var xs []*lis
	defer func() {
		for _, x := range xs {
			x.close()
		}
	}()
	var good int
	var model = make(map[nodem.PK]info)
	var watch = make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { // of the limit
		defer wg.Done()
		for {
			select {
			case <-watch:
				return
			case <-time.After(time.Millisecond):
			}
			var n int
			for _, c := range t.n.ConnectionsOfFeed(t.feed) {
				if c.IsOutgoing() {
					n++
				}
			}
			t.k.Count("samples", 1)
			if n > int(t.cfg.MaxConns) {
				t.Report("max-conns", "%d connections of the feed are made, the limit is %d", n, t.cfg.MaxConns)
				return
			}
		}
	}()
	defer wg.Wait()
	defer close(watch)
	var bad = r.Intn(3) > 0
	for i := 1 + r.Intn(8); i > 0; i-- {
		var x = &lis{pk: newKey(r)}
		if bad && r.Intn(2) == 0 {
			if x.kind = 1 + r.Intn(4); x.kind == 3 && t.timeout > 5*time.Second {
				x.kind = 2
			}
		}
		if r.Intn(2) == 0 {
			x.slow = time.Duration(r.Intn(150)) * time.Millisecond
			t.k.Count("slow", 1)
		}
		var err error
		if x.l, err = gonet.Listen("tcp", "127.0.0.1:0"); err != nil {
			t.Report("listen", "%v", err)
			return
		}
		xs = append(xs, x)
		var in = info{Tcp: x.l.Addr().String()}
		if x.kind == 4 {
			x.l.Close()
			in.Tcp = nodem.FreePort()
		} else {
			go t.serve(x)
		}
		if x.kind == 0 {
			good++
		}
		model[x.pk] = in
		if err = t.s.AddPeer(x.pk, nil, in.Tcp, ""); err != nil {
			t.Report("add-peer", "%v", err)
			return
		}
		t.Logf("told of %s %v, kind %d", name(x.pk), in, x.kind)
	}
	var want = func() (n int) {
		if n = good; raw {
			n++
		}
		if n > int(t.cfg.MaxConns) {
			n = int(t.cfg.MaxConns)
		}
		return
	}
	var conns = func() (n int) { return len(t.n.ConnectionsOfFeed(t.feed)) }
	if !nodem.Wait(deadline, func() bool { return conns() == want() }) {
		t.Report("dial", "%d connections, must be %d", conns(), want())
		return
	}
	for _, c := range t.n.ConnectionsOfFeed(t.feed) {
		var ok = raw && c.PeerID() == t.id
		for _, x := range xs {
			ok = ok || x.kind == 0 && x.pk == c.PeerID()
		}
		if !ok {
			t.Report("dial", "connection of the feed with %s", name(c.PeerID()))
			return
		}
	}
	t.k.Count("dialed", want())
	if good+1 > int(t.cfg.MaxConns) {
		t.k.Count("limit_of_conns", 1)
	}
	// the limit does not let other ones in
	time.Sleep(time.Duration(r.Intn(100)) * time.Millisecond)
	if conns() != want() {
		t.Report("dial", "%d connections, must be %d", conns(), want())
		return
	}
	var failed = make(map[nodem.PK]bool)
	if want() < int(t.cfg.MaxConns) { // all of them are tried
		for _, x := range xs {
			if x.kind != 0 {
				failed[x.pk] = true
			}
		}
		if !nodem.Wait(deadline, func() bool {
			var _, last = t.peers()
			for pk := range failed {
				if last[pk].RetryTimes == 0 {
					return false
				}
			}
			for _, x := range xs {
				if x.kind == 0 && last[x.pk].RetryTimes != 0 {
					return false
				}
			}
			return true
		}) {
			var _, last = t.peers()
			for _, x := range xs {
				t.Logf("%s of kind %d: %d tries", name(x.pk), x.kind, last[x.pk].RetryTimes)
			}
			t.Report("retry-times", "failed dials are not counted or counted for connected peers")
			return
		}
	}
	for _, x := range xs {
		if x.kind == 1 && atomic.LoadInt32(&x.subs) > 0 {
			t.k.Count("refused_subscription", 1)
		}
	}
	// the failed are not told of
	if raw && len(failed) > 0 {
		var m, err = t.p.Ask(&msg.RqPeers{Feed: t.feed}, 20*time.Second)
		var ps, ok = m.(*msg.Peers)
		if !ok || err != nil {
			t.Report("ask", "answer is %T, %v", m, err)
			return
		}
		for _, pi := range ps.List {
			if failed[pi.PubKey] {
				t.Report("told", "the node tells of %s it can't connect to", name(pi.PubKey))
				return
			}
		}
		t.k.Count("failed_not_told", len(failed))
	}
	// lose connections
	for i := r.Intn(3); i > 0 && t.Bad() == 0; i-- {
		var was = make(map[*node.Conn]bool)
		for _, c := range t.n.ConnectionsOfFeed(t.feed) {
			was[c] = c.IsOutgoing()
		}
		for _, x := range xs {
			if x.kind == 0 && r.Intn(2) == 0 {
				x.mx.Lock()
				for _, p := range x.ps {
					p.Close()
				}
				x.mx.Unlock()
			}
		}
		if !nodem.Wait(deadline, func() bool { return conns() == want() }) {
			t.Report("reconnect", "%d connections, must be %d", conns(), want())
			return
		}
		var fresh int
		for _, c := range t.n.ConnectionsOfFeed(t.feed) {
			if _, ok := was[c]; !ok {
				fresh++
			}
		}
		t.k.Count("reconnected", fresh)
	}
	t.k.Case(good > 0, fmt.Sprint("dial", len(xs), good, t.cfg.MaxConns, raw))
	// dead addresses come to life
	for _, x := range xs {
		if x.kind != 4 || want() == int(t.cfg.MaxConns) {
			continue
		}
		var err error
		if x.l, err = gonet.Listen("tcp", model[x.pk].Tcp); err != nil {
			continue
		}
		x.kind = 0
		good++
		t.Logf("%s comes to life", name(x.pk))
		go t.serve(x)
		if !nodem.Wait(deadline, func() bool { return conns() == want() }) {
			t.Report("revive", "%d connections, must be %d", conns(), want())
			return
		}
		t.k.Count("revived", 1)
		if !nodem.Wait(deadline, func() bool {
			var _, last = t.peers()
			return last[x.pk].RetryTimes == 0
		}) {
			t.Report("retry-times", "%s is connected, but it's still failed", name(x.pk))
			return
		}
	}
	// a peer the node can't connect to connects itself
	for _, x := range xs {
		if x.kind == 0 || !failed[x.pk] || !raw || t.Bad() > 0 {
			continue
		}
		var p, err = nodem.Dial(t.addr, nil)
		if err != nil {
			t.Report("dial", "%v", err)
			return
		}
		defer p.Close()
		if _, err = p.Hello(x.pk); err != nil {
			break // the node dials it right now
		}
		if m, e := p.Ask(&msg.Sub{Feed: t.feed}, 20*time.Second); e != nil {
			break
		} else if _, ok := m.(*msg.Ok); !ok {
			t.Report("subscribe", "%T, %v", m, e)
			return
		}
		var told bool
		if !nodem.Wait(deadline, func() bool {
			var m, _ = t.p.Ask(&msg.RqPeers{Feed: t.feed}, 20*time.Second)
			if ps, ok := m.(*msg.Peers); ok {
				for _, pi := range ps.List {
					told = told || pi.PubKey == x.pk
				}
			}
			return told || p.IsClosed() || t.p.IsClosed()
		}) {
			t.Report("told", "the node doesn't tell of %s that is connected", name(x.pk))
			return
		}
		if told {
			t.k.Count("itself_told", 1)
		}
		break
	}
	if raw && t.Bad() == 0 && r.Intn(2) == 0 {
		if err := t.n.LeaveSwarm(t.feed); err != nil {
			t.Report("leave", "%v", err)
			return
		}
		// no dials after it
		time.Sleep(100 * time.Millisecond)
		var total = func() (n int32) {
			for _, x := range xs {
				n += atomic.LoadInt32(&x.total)
			}
			return
		}
		var n, m int32
		for i := 0; i < 10; i++ { // what was started before can be late
			n = total()
			for _, x := range xs {
				if x.kind == 0 {
					x.mx.Lock()
					for _, p := range x.ps {
						p.Close()
					}
					x.mx.Unlock()
				}
			}
			time.Sleep(150 * time.Millisecond)
			if m = total(); m <= n+int32(len(xs)) {
				break
			}
		}
		if m > n+int32(len(xs)) {
			t.Report("leave", "%d dials after the swarm is left", m-n)
		}
	}
}
