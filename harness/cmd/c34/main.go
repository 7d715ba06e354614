// C34: exchange of peers
package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/kit"
	"verif/nodem"

	"github.com/skycoin/cxo/node"
	"github.com/skycoin/skycoin/src/cipher"
)

func main() {
	kit.Main("C34", kit.Opts{
		Rule: "networks of 2 to 7 nodes of one or two feeds, random knowledge of each other, some are told of dead addresses or come late, random rates and limits, lists of peers and connections are sampled all the time; " +
			"every node that someone was told of must get known to and connected with all others, and roots come to all; a node among raw peers that send good, own, invalid, repeated and changed peers, answers of other feeds and nothing, " +
			"its list is compared with the model after every answer, its answers with its list, its dials with its limits; non-trivial if somebody gets known from others; distinct by the case and what happened",
		Need: []string{"worlds", "worlds_two_feeds", "worlds_limited", "learned", "connected", "samples", "dead", "late", "simultaneous", "roots",
			"answers", "own_refused", "invalid_refused", "foreign_refused", "updated", "full", "removed", "asked", "failed_not_told", "expired", "not_expired",
			"dialed", "limit_of_conns", "reconnected", "refused_subscription", "left", "rejoined", "not_in_swarm", "other_connection", "itself_told", "seen", "revived", "slow"},
		MinCases: 60,
		Watchdog: 14 * time.Minute,
	}, run)
}

func run(k *kit.K) {
	var next int32 = -1
	var wg sync.WaitGroup
	for w := 0; w < 32; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := int(atomic.AddInt32(&next, 1)); i < k.N(800, 10000) && k.Bad() < 6; i = int(atomic.AddInt32(&next, 1)) {
				k.Within("hang", fmt.Sprint("case ", i), 4*time.Minute, func() {
					var w = nodem.NewWorld(k, k.Rng(i), fmt.Sprint("case ", i))
					defer w.Close()
					if i%2 == 0 {
						(&net{World: w, k: k, r: k.Rng(i, "r")}).run()
					} else {
						(&single{World: w, k: k, r: k.Rng(i, "r")}).run()
					}
				})
			}
		}()
	}
	wg.Wait()
}

// wait for convergence
const deadline = 60 * time.Second

func newKey(r *rand.Rand) nodem.PK {
	var pk, _, _ = cipher.GenerateDeterministicKeyPair([]byte(fmt.Sprint(r.Int63(), r.Int63())))
	return pk
}

// what is told of a peer
type info struct {
	Tcp, Udp, Meta string
}

func infoOf(p node.Peer) info { return info{p.TCPAddr, p.UDPAddr, string(p.Metadata)} }

func name(pk nodem.PK) string { return pk.Hex()[:6] }

// a network
type net struct {
	*nodem.World
	k   *kit.K
	r   *rand.Rand
	ns  []*member
	fs  []nodem.PK
	out bool // MaxConns are for outgoing connections certainly

	mx   sync.Mutex
	told map[nodem.PK]map[info]bool // of every feed
	st   int32
}

type member struct {
	*nodem.N
	addr string
	in   []bool // feeds
	cfg  []node.SwarmConfig
	ss   []*node.Swarm
	late bool
	rem  bool // a peer was removed by the limit
}

func (t *net) rate() time.Duration { return time.Duration(15+t.r.Intn(60)) * time.Millisecond }

func (t *net) tell(f int, m *member, pk nodem.PK, tcp string) {
	var meta string
	if t.r.Intn(2) == 0 {
		meta = fmt.Sprint("meta of ", name(pk))
	}
	t.mx.Lock()
	if t.told[pk] == nil {
		t.told[pk] = make(map[info]bool)
	}
	t.told[pk][info{tcp, "", meta}] = true
	t.mx.Unlock()
	t.Logf("%s is told of %s at %s, feed %d", m.Name, name(pk), tcp, f)
	var before = len(m.ss[f].Peers())
	if err := m.ss[f].AddPeer(pk, []byte(meta), tcp, ""); err != nil {
		if max := m.cfg[f].MaxPeers; max == 0 || uint64(before) < max && uint64(len(m.ss[f].Peers())) < max {
			t.Report("add-peer", "%s: AddPeer: %v", m.Name, err)
		}
	}
}

// look at the lists
func (t *net) look(m *member, f int) (ps []node.Peer) {
	ps = m.ss[f].Peers()
	t.k.Count("samples", 1)
	if max := m.cfg[f].MaxPeers; max > 0 && uint64(len(ps)) > max {
		t.Report("max-peers", "%s knows %d peers, the limit is %d", m.Name, len(ps), max)
	}
	t.mx.Lock()
	for _, p := range ps {
		if p.PubKey == m.ID() {
			t.Report("own", "%s knows itself", m.Name)
		}
		if !t.told[p.PubKey][infoOf(p)] {
			t.Report("unknown", "%s knows peer %s %v, but nobody was told of it", m.Name, name(p.PubKey), infoOf(p))
		}
	}
	t.mx.Unlock()
	if t.out {
		var n uint64
		for _, c := range m.ConnectionsOfFeed(t.fs[f]) {
			if c.IsOutgoing() {
				n++
			}
		}
		if max := m.cfg[f].MaxConns; max > 0 && n > max {
			t.Report("max-conns", "%s has %d outgoing connections of the feed, the limit is %d", m.Name, n, max)
		}
	}
	return
}

func (t *net) run() {
	var r = t.r
	t.told = make(map[nodem.PK]map[info]bool)
	var amount, limited = 2 + r.Intn(5), r.Intn(4) == 0
	for i := 1 + r.Intn(2); i > 0; i-- {
		t.fs = append(t.fs, newKey(r))
	}
	var f0 = t.Feed(0, true) // with roots
	t.fs[0] = f0.PK
	var conns = limited && r.Intn(2) == 0
	t.out = conns && len(t.fs) == 1
	for i := 0; i < amount; i++ {
		var m = &member{addr: nodem.FreePort(), late: i > 1 && r.Intn(6) == 0}
		for range t.fs {
			var cfg = node.SwarmConfig{RequestPeerRate: t.rate(), OutgoingConnRate: t.rate(), ClearOldPeersRate: t.rate()}
			if r.Intn(2) == 0 {
				cfg.PeersPerResponse = uint64(1 + r.Intn(4))
			}
			if limited && r.Intn(2) == 0 {
				cfg.MaxPeers = uint64(1 + r.Intn(3))
			}
			if conns && r.Intn(2) == 0 {
				cfg.MaxConns = uint64(1 + r.Intn(3))
			}
			m.cfg = append(m.cfg, cfg)
			m.in = append(m.in, r.Intn(5) > 0 || i < 2)
		}
		m.ss = make([]*node.Swarm, len(t.fs))
		t.ns = append(t.ns, m)
	}
	t.ns[0].late = false
	var start = func(m *member) bool {
		var n, err = nodem.New(fmt.Sprint("n", len(t.Nodes)), nodem.Opt{Conf: func(c *node.Config) { c.TCP.Listen = m.addr }}, t.World.Report)
		if err != nil {
			if strings.Contains(err.Error(), "address already in use") {
				return false
			}
			t.Report("new-node", "%v", err)
			return false
		}
		t.Nodes = append(t.Nodes, n)
		m.N = n
		t.Logf("%s %s at %s, feeds %v %+v", n.Name, name(n.ID()), m.addr, m.in, m.cfg)
		for f, pk := range t.fs {
			if !m.in[f] {
				continue
			}
			if err := n.Share(pk); err != nil {
				t.Report("share", "%v", err)
				return false
			}
			if m.ss[f], err = n.JoinSwarm(pk, m.cfg[f]); err != nil {
				t.Report("join", "%v", err)
				return false
			}
		}
		return true
	}
	for _, m := range t.ns {
		if !m.late && !start(m) {
			return
		}
	}
	// sampler
	var quit = make(chan struct{})
	var wg sync.WaitGroup
	var started atomic.Value
	started.Store([]*member{})
	wg.Add(1)
	go func() {
		defer wg.Done()
		for {
			select {
			case <-quit:
				return
			case <-time.After(3 * time.Millisecond):
			}
			for _, m := range started.Load().([]*member) {
				for f := range t.fs {
					if m.in[f] {
						t.look(m, f)
					}
				}
			}
		}
	}()
	var update = func() {
		var ms []*member
		for _, m := range t.ns {
			if m.N != nil {
				ms = append(ms, m)
			}
		}
		started.Store(ms)
	}
	update()
	defer wg.Wait()
	defer close(quit)

	// who knows whom
	var known = make([]map[*member]bool, len(t.fs))
	type edge struct {
		f    int
		a, b *member
	}
	var later []edge
	for f := range t.fs {
		known[f] = make(map[*member]bool)
		var ms []*member
		for _, m := range t.ns {
			if m.in[f] {
				ms = append(ms, m)
			}
		}
		r.Shuffle(len(ms), func(i, j int) { ms[i], ms[j] = ms[j], ms[i] })
		var es []edge
		for i := 1; i < len(ms); i++ {
			var a, b = ms[i], ms[r.Intn(i)]
			switch r.Intn(4) {
			case 0:
				es = append(es, edge{f, b, a})
			case 1:
				es = append(es, edge{f, a, b}, edge{f, b, a})
				t.k.Count("simultaneous", 1)
			default:
				es = append(es, edge{f, a, b})
			}
		}
		for i := r.Intn(3); i > 0; i-- {
			if a, b := ms[r.Intn(len(ms))], ms[r.Intn(len(ms))]; a != b {
				es = append(es, edge{f, a, b})
			}
		}
		later = append(later, es...)
	}
	r.Shuffle(len(later), func(i, j int) { later[i], later[j] = later[j], later[i] })
	// names of the late ones are not known before they come
	var tell = func(e edge) {
		if e.a.N != nil && e.b.N != nil && t.Bad() == 0 {
			t.tell(e.f, e.a, e.b.ID(), e.b.addr)
			known[e.f][e.b] = true
		}
	}
	var dead int
	for _, e := range later {
		if r.Intn(3) == 0 {
			time.Sleep(time.Duration(r.Intn(60)) * time.Millisecond)
		}
		tell(e)
		if r.Intn(6) == 0 && e.a.N != nil {
			t.tell(e.f, e.a, newKey(r), nodem.FreePort())
			dead++
		}
		if r.Intn(8) == 0 && e.a.N != nil && e.b.N != nil && !t.out { // by hand
			t.Logf("%s connects to %s by hand", e.b.Name, e.a.Name)
			go func(a, b *member) {
				b.TCP().Connect(a.addr)
			}(e.a, e.b)
			t.k.Count("other_connection", 1)
		}
	}
	for _, m := range t.ns {
		if m.late {
			time.Sleep(time.Duration(r.Intn(200)) * time.Millisecond)
			if !start(m) {
				return
			}
			update()
			t.k.Count("late", 1)
		}
	}
	for _, e := range later {
		if e.a.late || e.b.late {
			tell(e)
		}
	}
	var missing = func() (s string) {
		for f, pk := range t.fs {
			for _, m := range t.ns {
				if !m.in[f] {
					continue
				}
				var have, conn = make(map[nodem.PK]bool), make(map[nodem.PK]bool)
				for _, p := range t.look(m, f) {
					have[p.PubKey] = true
				}
				for _, c := range m.ConnectionsOfFeed(pk) {
					conn[c.PeerID()] = true
				}
				for x := range known[f] {
					if x == m {
						continue
					}
					if !have[x.ID()] {
						s += fmt.Sprintf("%s doesn't know %s of feed %d; ", m.Name, x.Name, f)
					}
					if !conn[x.ID()] {
						s += fmt.Sprintf("%s is not connected to %s by feed %d; ", m.Name, x.Name, f)
					}
				}
			}
		}
		return
	}
	if t.Bad() > 0 {
		return
	}
	t.k.Count("worlds", 1)
	if len(t.fs) > 1 {
		t.k.Count("worlds_two_feeds", 1)
	}
	t.k.Count("dead", dead)
	if limited {
		time.Sleep(time.Duration(200+r.Intn(500)) * time.Millisecond)
		t.k.Count("worlds_limited", 1)
		t.k.Case(true, fmt.Sprint("limited", amount, len(t.fs), t.sig()))
		return
	}
	if !nodem.Wait(deadline, func() bool { return t.Bad() > 0 || missing() == "" }) {
		t.Report("missing", "%s\n%s", missing(), t.CB())
		return
	}
	var n int
	for f := range t.fs {
		for _, m := range t.ns {
			if m.in[f] {
				n += len(m.ss[f].Peers())
			}
		}
	}
	t.k.Count("learned", n)
	t.k.Count("connected", n)
	t.k.Case(amount > 2, fmt.Sprint(amount, len(t.fs), dead, t.sig()))
	// roots; everybody of the feed is connected
	if x := t.Publish(f0, 1); x != nil && t.Bad() == 0 {
		for _, m := range t.ns {
			if m.in[0] && !nodem.Wait(deadline, func() bool { return m.Has(x) }) {
				t.Report("no-root", "%s is in the swarm, but doesn't receive the root\n%s", m.Name, t.CB())
				return
			}
		}
		t.k.Count("roots", 1)
	}
}

// sig of the lists
func (t *net) sig() string {
	var s []string
	for f := range t.fs {
		for i, m := range t.ns {
			if m.in[f] {
				s = append(s, fmt.Sprint(f, i, len(m.ss[f].Peers())))
			}
		}
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}
