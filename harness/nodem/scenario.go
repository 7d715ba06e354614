package nodem

import (
	"fmt"
	"math/rand"
	"path/filepath"
	"sync"
	"time"

	"github.com/skycoin/cxo/node"
	"github.com/skycoin/cxo/skyobject/registry"
)

// Cfg of a scenario
type Cfg struct {
	Max     int  // nodes
	Faults  bool // connections, feeds and nodes come and go
	Reject  bool // callbacks refuse roots; roots may be lost then
	Timeout time.Duration
	Keep    func(key string) bool
	Conf    func(r *rand.Rand, c *node.Config)
	During  func(s *Scenario, stop <-chan struct{}) // runs with the scenario
	Hook    func(i int, r *rand.Rand, o *Opt)       // other options of a node
	Heads   int                                     // of a feed, 2 by default
	NoWait  bool                                    // roots may be lost
	Wait    time.Duration                           // for a connection, 20s by default
	Gap     int                                     // between roots, ms, 20 by default
	Lose    bool                                    // owners lose objects of some roots
	Shuffle bool                                    // roots are published out of order
}

// Scenario is a run of nodes
type Scenario struct {
	*World
	C     Cfg
	Edges []*edge
	In    []map[int]bool // feed -> nodes
	Late  bool           // subscriptions or disturbances after publishing
	sub   map[int]*registry.Root

	nmx sync.RWMutex // restart of nodes
}

type edge struct {
	a, b int
	udp  bool
	mx   sync.Mutex
}

func (e *edge) String() string { return fmt.Sprintf("%d-%d", e.a, e.b) }

// N returns current node
func (s *Scenario) N(i int) *N {
	s.nmx.RLock()
	defer s.nmx.RUnlock()
	return s.Nodes[i]
}

// Topology is random connected graph
func (s *Scenario) topology(n int) {
	var r = s.R
	var add = func(a, b int) {
		for _, e := range s.Edges {
			if e.a == a && e.b == b || e.a == b && e.b == a {
				return
			}
		}
		if r.Intn(2) == 0 {
			a, b = b, a
		}
		s.Edges = append(s.Edges, &edge{a: a, b: b, udp: r.Intn(6) == 0})
	}
	switch r.Intn(5) {
	case 0: // line
		for i := 1; i < n; i++ {
			add(i-1, i)
		}
	case 1: // star
		for i := 1; i < n; i++ {
			add(0, i)
		}
	case 2: // ring
		for i := 0; i < n && n > 2; i++ {
			add(i, (i+1)%n)
		}
		if n == 2 {
			add(0, 1)
		}
	case 3: // full
		for i := 0; i < n; i++ {
			for j := 0; j < i; j++ {
				add(i, j)
			}
		}
	case 4: // random
		for i := 1; i < n; i++ {
			add(r.Intn(i), i)
		}
		for i := r.Intn(3); i > 0 && n > 2; i-- {
			if a, b := r.Intn(n), r.Intn(n); a != b {
				add(a, b)
			}
		}
	}
}

// members of a feed are connected through members
func (s *Scenario) members(owner int) (m map[int]bool) {
	m = map[int]bool{owner: true}
	for p := 0; p < 3; p++ {
		for _, e := range s.Edges {
			if (m[e.a] || m[e.b]) && s.R.Intn(3) > 0 {
				m[e.a], m[e.b] = true, true
			}
		}
	}
	return
}

func (s *Scenario) opt(i int) (o Opt) {
	o.UDP = true
	o.Timeout = s.C.Timeout
	o.Index = filepath.Join(s.Dir, fmt.Sprint("idx", i))
	if s.C.Conf != nil {
		var r = rand.New(rand.NewSource(s.R.Int63()))
		o.Conf = func(c *node.Config) { s.C.Conf(r, c) }
	}
	if s.C.Hook != nil {
		s.C.Hook(i, rand.New(rand.NewSource(s.R.Int63())), &o)
	}
	if s.C.Reject {
		var r = rand.New(rand.NewSource(s.R.Int63()))
		var mx sync.Mutex
		o.OnReceived = func(*node.Conn, *registry.Root) error {
			mx.Lock()
			defer mx.Unlock()
			if r.Intn(6) == 0 {
				return ErrReject
			}
			return nil
		}
	}
	return
}

func pause(r *rand.Rand, max int) {
	if max > 0 && r.Intn(3) > 0 {
		time.Sleep(time.Duration(r.Intn(max*1000)) * time.Microsecond)
	}
}

// connect an edge; the peer may notice that an old connection
// is closed a bit later
func (s *Scenario) connect(e *edge) (c *node.Conn) {
	var err error
	var a, b = s.N(e.a), s.N(e.b)
	var ok = Wait(s.C.Wait, func() bool {
		if c, err = a.Connect(b, e.udp); err == nil && c.PeerID() != b.ID() {
			err = fmt.Errorf("connected to other peer")
		}
		return err == nil
	})
	if !ok {
		s.Report("connect", "%s can't connect to %s: %v\n%s", a.Name, b.Name, err, s.CB())
		return nil
	}
	s.Logf("%s is connected to %s, udp: %v", a.Name, b.Name, e.udp)
	return
}

// subscribe to all common feeds from a random end
func (s *Scenario) subscribe(r *rand.Rand, e *edge, only int) {
	for f, in := range s.In {
		if !in[e.a] || !in[e.b] || (only >= 0 && f != only) {
			continue
		}
		var a, b = s.N(e.a), s.N(e.b)
		if r.Intn(2) == 0 {
			a, b = b, a
		}
		var c *node.Conn
		if !Wait(s.C.Wait, func() bool { c = a.Conn(b); return c != nil }) {
			s.Report("not-listed", "%s: connection with %s is not listed\n%s", a.Name, b.Name, s.CB())
			return
		}
		pause(r, 5)
		if err := c.Subscribe(s.Feeds[f].PK); err != nil {
			s.Report("subscribe", "%s can't subscribe to feed %d of %s: %v\n%s", a.Name, f, b.Name, err, s.CB())
			return
		}
		s.Logf("%s is subscribed to feed %d of %s", a.Name, f, b.Name)
	}
}

func (s *Scenario) heads() int {
	if s.C.Heads > 0 {
		return s.C.Heads
	}
	return 2
}

// save some roots and publish them in any order, and again
func (s *Scenario) shuffled(r *rand.Rand, f *Feed, nonce uint64) {
	var n, xs = s.Nodes[f.Owner], []*Root(nil)
	for i := 2 + r.Intn(3); i > 0; i-- {
		if x := s.Save(n, f, nonce); x != nil {
			xs = append(xs, x)
		}
	}
	var order = r.Perm(len(xs))
	for i := r.Intn(3); i > 0 && len(xs) > 0; i-- {
		order = append(order, r.Intn(len(xs)))
	}
	for _, i := range order {
		s.Logf("%s publishes %s out of order: %d objects", n.Name, short(xs[i].R), len(xs[i].Reach))
		n.Publish(xs[i].R)
		pause(r, 3)
	}
}

func (s *Scenario) publish(r *rand.Rand, f *Feed) {
	var nonce = uint64(1 + r.Intn(s.heads()))
	if !s.C.Lose || r.Intn(4) > 0 {
		if s.C.Shuffle && r.Intn(3) == 0 {
			s.shuffled(r, f, nonce)
			return
		}
		s.Publish(f, nonce)
		return
	}
	var n = s.Nodes[f.Owner]
	var x = s.Save(n, f, nonce)
	if x == nil {
		return
	}
	for h := range x.Reach {
		if h != x.R.Hash && h != H(x.R.Reg) {
			s.Logf("%s loses object %s", n.Name, h.Hex()[:6])
			n.St.Lose(h)
			break
		}
	}
	s.Logf("%s publishes %s: %d objects", n.Name, short(x.R), len(x.Reach))
	n.Publish(x.R)
}

// Run the scenario; it returns false if something is wrong
func (s *Scenario) Run() (ok bool) {
	var r = s.R
	if s.C.Wait == 0 {
		s.C.Wait = 20 * time.Second
	}
	if s.C.Gap == 0 {
		s.C.Gap = 20
	}
	var n = 2 + r.Intn(s.C.Max-1)
	s.topology(n)
	for i := 0; i < n; i++ {
		s.Node(s.opt(i))
	}
	var udp bool
	for _, e := range s.Edges {
		udp = udp || e.udp
	}
	for i := 1 + r.Intn(3); i > 0 && (!s.C.Lose || len(s.Feeds) == 0); i-- { // feeds can share objects
		var f = s.Feed(r.Intn(n), udp)
		s.In = append(s.In, s.members(f.Owner))
		for j := range s.In[len(s.In)-1] {
			if err := s.N(j).Share(f.PK); err != nil {
				s.Report("share", "%v", err)
			}
		}
		s.Logf("feed %d (%s) of %s, shared by %v", len(s.Feeds)-1, f.PK.Hex()[:6], s.N(f.Owner).Name, s.In[len(s.In)-1])
	}
	s.Logf("edges %v", s.Edges)

	var stop = make(chan struct{})
	var during sync.WaitGroup
	if s.C.During != nil {
		during.Add(1)
		go func() { defer during.Done(); s.C.During(s, stop) }()
	}

	var wg sync.WaitGroup
	var early = r.Intn(3) == 0
	s.Late = !early
	var edges = func() {
		for _, e := range s.Edges {
			wg.Add(1)
			var r = rand.New(rand.NewSource(r.Int63()))
			go func(e *edge) {
				defer wg.Done()
				pause(r, 30)
				if s.connect(e) != nil {
					pause(r, 10)
					s.subscribe(r, e, -1)
				}
			}(e)
		}
	}
	var publish = func(max, gap int) {
		for i, f := range s.Feeds {
			wg.Add(1)
			var r = rand.New(rand.NewSource(r.Int63() + int64(i)))
			go func(f *Feed) {
				defer wg.Done()
				for i := 1 + r.Intn(max); i > 0; i-- {
					pause(r, gap)
					s.nmx.RLock() // the owner must not be restarted
					s.publish(r, f)
					s.nmx.RUnlock()
				}
			}(f)
		}
	}
	edges()
	if early {
		wg.Wait()
	}
	publish(6, s.C.Gap)
	wg.Wait()
	if s.C.Faults && s.Bad() == 0 {
		for i := 1 + r.Intn(4); i > 0 && s.Bad() == 0; i-- {
			s.Late = true
			publish(3, s.C.Gap)
			pause(r, 20)
			s.disturb()
			wg.Wait()
		}
		if r.Intn(2) == 0 {
			publish(2, 5)
			wg.Wait()
		}
	}
	ok = s.Bad() == 0 && s.settle()
	close(stop)
	during.Wait()
	return
}

func (s *Scenario) disturb() {
	var r = s.R
	var e = s.Edges[r.Intn(len(s.Edges))]
	switch r.Intn(5) {
	case 0: // the connection is closed and created again
		var a, b = s.N(e.a), s.N(e.b)
		if r.Intn(2) == 0 && !e.udp {
			a, b = b, a
		}
		if c := a.Conn(b); c != nil {
			s.Logf("%s closes connection with %s", a.Name, b.Name)
			c.Close()
			if e.udp { // nobody tells the peer
				if x := b.Conn(a); x != nil {
					x.Close()
				}
			}
		}
		pause(r, 20)
		s.reconnect(e, a, b)
	case 1: // unsubscribe and subscribe
		for f, in := range s.In {
			if in[e.a] && in[e.b] {
				var a, b = s.N(e.a), s.N(e.b)
				if r.Intn(2) == 0 {
					a, b = b, a
				}
				if c := a.Conn(b); c != nil {
					s.Logf("%s unsubscribes from feed %d of %s", a.Name, f, b.Name)
					c.Unsubscribe(s.Feeds[f].PK)
					pause(r, 20)
					s.subscribe(r, e, f)
				}
			}
		}
	case 2: // a feed is not shared for a while
		var f = r.Intn(len(s.Feeds))
		for i := range s.In[f] {
			if r.Intn(2) == 0 {
				continue
			}
			var n = s.N(i)
			s.Logf("%s doesn't share feed %d", n.Name, f)
			n.Loose(s.Feeds[f].PK)
			n.DontShare(s.Feeds[f].PK)
			pause(r, 20)
			n.Share(s.Feeds[f].PK)
			// the peers get to know that asynchronously
			for _, e := range s.Edges {
				if (e.a == i || e.b == i) && s.In[f][e.a] && s.In[f][e.b] {
					var x = s.N(e.a + e.b - i)
					Wait(10*time.Second, func() bool {
						for _, c := range x.ConnectionsOfFeed(s.Feeds[f].PK) {
							if c.PeerID() == n.ID() {
								return false
							}
						}
						return true
					})
					s.subscribe(r, e, f)
				}
			}
			break
		}
	case 3, 4: // a node is restarted
		var i = r.Intn(len(s.Nodes))
		s.restart(i)
	}
}

func (s *Scenario) reconnect(e *edge, a, b *N) {
	// both ends must have noticed
	Wait(10*time.Second, func() bool { return a.Conn(b) == nil && b.Conn(a) == nil })
	if s.connect(e) != nil {
		s.subscribe(s.R, e, -1)
	}
}

func (s *Scenario) restart(i int) {
	s.nmx.Lock()
	var n = s.Nodes[i]
	s.World.Logf("%s is restarted", n.Name)
	n.LooseAll()
	s.CloseNode(n)
	n.St.Reopen()
	var o = s.opt(i)
	o.Store = n.St
	var x, err = New(n.Name, o, s.Report)
	if err != nil {
		s.nmx.Unlock()
		s.Report("restart", "%s: %v", n.Name, err)
		return
	}
	s.Nodes[i] = x
	s.nmx.Unlock()
	for f, in := range s.In {
		if in[i] {
			if err = x.Share(s.Feeds[f].PK); err != nil {
				s.Report("share", "%v", err)
			}
		}
	}
	for _, e := range s.Edges {
		if e.a != i && e.b != i {
			continue
		}
		if e.udp {
			var y = s.N(e.a + e.b - i)
			for _, c := range y.Connections() {
				if c.PeerID() == n.ID() {
					c.Close()
				}
			}
		}
		if s.connect(e) != nil {
			s.subscribe(s.R, e, -1)
		}
	}
}

// Expected roots of the node
func (s *Scenario) expected(f int) (xs []*Root) {
	var fd = s.Feeds[f]
	if x := fd.Newest(); x != nil {
		xs = append(xs, x)
	}
	if s.Late {
		return
	}
	for nonce := uint64(1); nonce <= uint64(s.heads()); nonce++ {
		if x := fd.LastOf(nonce); x != nil {
			xs = append(xs, x)
		}
	}
	return
}

func (s *Scenario) missing() string {
	for f, in := range s.In {
		for i := range in {
			for _, x := range s.expected(f) {
				if n := s.N(i); !n.IsLast(x) {
					return fmt.Sprintf("%s has no root %s of feed %d as the last one", n.Name, short(x.R), f)
				}
			}
		}
	}
	return ""
}

func (s *Scenario) busy() (b string) {
	for i := range s.Nodes {
		b += s.N(i).Busy()
	}
	return
}

func (s *Scenario) settle() (ok bool) {
	if !s.C.Reject && !s.C.NoWait {
		if !Wait(90*time.Second, func() bool { return s.missing() == "" }) {
			s.Report("not-replicated", "%s\n%s", s.missing(), s.CB())
			return
		}
	}
	if !Wait(90*time.Second, func() bool { return s.busy() == "" }) {
		s.Report("no-outcome", "%s\n%s", s.busy(), s.CB())
		return
	}
	return s.Bad() == 0
}

// CheckAll stores
func (s *Scenario) CheckAll() (roots int) {
	for i, n := range s.Nodes {
		for f := range s.In {
			if s.In[f][i] {
				roots += s.CheckFeed(n, s.Feeds[f])
			}
		}
		var i = i
		s.CheckForeign(n, func(f *Feed) bool {
			for j, x := range s.Feeds {
				if x == f {
					return s.In[j][i]
				}
			}
			return false
		})
	}
	return
}

// Linked directly
func (s *Scenario) Linked(a, b int) bool {
	for _, e := range s.Edges {
		if e.a == a && e.b == b || e.a == b && e.b == a {
			return true
		}
	}
	return false
}

// Kill a random connection and connect again, it can fail
func (s *Scenario) Kill(r *rand.Rand) {
	var e = s.Edges[r.Intn(len(s.Edges))]
	if e.udp {
		return
	}
	var a, b = s.N(e.a), s.N(e.b)
	if r.Intn(2) == 0 {
		a, b = b, a
	}
	var c = a.Conn(b)
	if c == nil {
		return
	}
	s.Logf("%s kills connection with %s", a.Name, b.Name)
	if r.Intn(2) == 0 {
		c.Close()
	} else {
		c.Connection.Close() // as if the network fails
	}
	for i := 0; i < 3; i++ {
		if c, err := a.Connect(b, false); err == nil {
			for f, in := range s.In {
				if in[e.a] && in[e.b] {
					c.Subscribe(s.Feeds[f].PK)
				}
			}
			return
		}
		time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
	}
}

// ByHash root
func (f *Feed) ByHash(h H) *Root {
	f.mx.Lock()
	defer f.mx.Unlock()
	for _, rs := range f.Roots {
		for _, x := range rs {
			if x.R.Hash == h {
				return x
			}
		}
	}
	return nil
}
