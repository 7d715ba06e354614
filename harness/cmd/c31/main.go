// C31: hostile peers
package main

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/kit"
	"verif/nodem"

	"github.com/skycoin/cxo/node"
	"github.com/skycoin/cxo/node/msg"
	"github.com/skycoin/cxo/skyobject/registry"
	"github.com/skycoin/skycoin/src/cipher"
)

func main() {
	kit.Main("C31", kit.Opts{
		Rule: "a node among a good owner, a good subscriber and up to four hostile peers that connect to it or it connects to: silence and garbage in the handshake, garbage, truncated, mutated, unsolicited, repeated messages after, " +
			"floods, peers that don't read, forged and captured roots, wrong, missing, late and repeated objects, feeds with malformed, endless or exponential content; the roots of the owner must arrive meanwhile and after, also if hostile peers announce them first, " +
			"nothing foreign is stored, every request is answered; non-trivial if an attacker came through the handshake; distinct by the actions",
		Need: []string{"bad_handshakes", "handshakes", "garbage", "mutated", "unsolicited", "floods", "forged_roots", "captured_roots", "hostile_feeds", "hostile_roots_received", "wrong_objects", "silent_objects",
			"garbage_objects", "slow_readers", "bombs", "probes", "probe_errors", "probe_closed", "outgoing", "api_calls", "api_errors", "roots_arrived", "downstream", "broken", "hostile_filled", "stall_roots", "stall_requests", "versions"},
		MinCases: 60,
		Watchdog: 14 * time.Minute,
	}, run)
}

func run(k *kit.K) {
	var next int32 = -1
	var wg sync.WaitGroup
	for w := 0; w < 12; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := int(atomic.AddInt32(&next, 1)); i < k.N(700, 8000) && k.Bad() < 6; i = int(atomic.AddInt32(&next, 1)) {
				var t = &test{World: nodem.NewWorld(k, k.Rng(i), fmt.Sprint("case ", i)), k: k, r: k.Rng(i, "r"), i: i}
				var f = t.run
				if i%6 == 5 {
					f = t.stall
				} else if i%24 == 16 {
					f = t.versions
				}
				k.Within("hang", fmt.Sprint("case ", i), 5*time.Minute, f)
			}
		}()
	}
	wg.Wait()
}

type test struct {
	*nodem.World
	k       *kit.K
	r       *rand.Rand
	i       int
	a, g, b *nodem.N
	f       *nodem.Feed
	evil    []*feed

	mx       sync.Mutex
	raws     []*nodem.Raw
	captured []*nodem.Root // genuine roots that are not published
	through  int32
	stop     int32
}

func (t *test) isEvil(pk nodem.PK) *feed {
	for _, e := range t.evil {
		if e.pk == pk {
			return e
		}
	}
	return nil
}

func (t *test) run() {
	var r = t.r
	t.f = &nodem.Feed{}
	for i := r.Intn(4); i > 0; i-- {
		t.evil = append(t.evil, newFeed(t.k, rand.New(rand.NewSource(r.Int63())), fmt.Sprint(t.i, "/", i)))
	}
	var tm = time.Duration(300+r.Intn(700)) * time.Millisecond
	var public = r.Intn(2) == 0
	t.a = t.Node(nodem.Opt{Timeout: tm, OnReceived: t.received, Loose: true, Conf: func(c *node.Config) {
		c.MaxConnections, c.MaxPendingConnections = 0, 0
		c.MaxFillingTime = 5 * time.Second
		c.Public = public
		c.MaxHeads = 3 + r.Intn(8)
		if r.Intn(4) == 0 {
			c.Config.MaxObjectSize = 70000
			c.Config.CacheMaxItemSize = 10000
		}
		if r.Intn(3) == 0 {
			c.MaxFillingParallel = 1 + r.Intn(5)
		}
	}})
	t.g = t.Node(nodem.Opt{Timeout: 10 * time.Second, Loose: true})
	t.f = t.Feed(1, true)
	var link = func(a, b *nodem.N) {
		var _, err = a.Connect(b, false)
		if err == nil && nodem.Wait(10*time.Second, func() bool { return b.Conn(a) != nil }) {
			if err = b.Share(t.f.PK); err == nil {
				err = a.Conn(b).Subscribe(t.f.PK)
			}
		}
		if err != nil || a.Conn(b) == nil {
			t.Report("link", "%v", err)
		}
	}
	t.g.Share(t.f.PK)
	link(t.a, t.g)
	if r.Intn(2) == 0 {
		t.b = t.Node(nodem.Opt{Timeout: 10 * time.Second, Loose: true})
		link(t.b, t.a)
	}
	for i := r.Intn(3); i >= 0; i-- {
		t.Publish(t.f, uint64(1+r.Intn(2)))
	}
	for _, e := range t.evil {
		if e.shared.Store(r.Intn(3) > 0); e.shared.Load() {
			t.a.Share(e.pk)
		}
	}

	var wg sync.WaitGroup
	for i := 1 + r.Intn(4); i > 0 && t.Bad() == 0; i-- {
		var x = &attacker{test: t, r: rand.New(rand.NewSource(r.Int63())), n: i}
		wg.Add(1)
		go func() {
			defer wg.Done()
			x.run()
		}()
	}
	for i := 1 + r.Intn(5); i > 0 && t.Bad() == 0; i-- {
		time.Sleep(time.Duration(r.Intn(60)) * time.Millisecond)
		switch r.Intn(5) {
		case 0, 1:
			t.Publish(t.f, uint64(1+r.Intn(2)))
		case 2:
			if x := t.Save(t.g, t.f, uint64(1+r.Intn(2))); x != nil {
				t.mx.Lock()
				t.captured = append(t.captured, x)
				t.mx.Unlock()
				t.Logf("root %d/%d is captured", x.R.Nonce, x.R.Seq)
			}
		case 3:
			t.mx.Lock()
			for _, x := range t.captured {
				t.g.Node.Publish(x.R)
			}
			t.mx.Unlock()
		case 4:
			t.api()
		}
	}
	wg.Wait()
	if t.Bad() == 0 {
		t.probe()
	}
	if t.Bad() == 0 {
		t.alive()
	}
	atomic.StoreInt32(&t.stop, 1)
	t.mx.Lock()
	for _, x := range t.raws {
		x.Close()
	}
	t.mx.Unlock()
	if t.Bad() == 0 {
		t.check()
	}
	t.k.Count("broken", int(atomic.LoadInt32(&t.a.Broken)))
	t.Close()
	t.k.Case(t.through > 0, strip(t.Log()))
}

func strip(l string) string {
	var ls = strings.Split(l, "\n")
	for i := range ls {
		if len(ls[i]) > 7 {
			ls[i] = ls[i][7:]
		}
	}
	return strings.Join(ls, "\n")
}

// a root is going to be filled
func (t *test) received(c *node.Conn, r *registry.Root) (_ error) {
	if cipher.VerifyPubKeySignedHash(r.Pub, r.Sig, cipher.SumSHA256(r.Encode())) != nil {
		t.Report("forged", "root %s with invalid signature is accepted", r)
	}
	if r.Pub == t.f.PK {
		if t.f.ByHash(r.Hash) == nil {
			t.Report("forged", "root %s is accepted but the owner didn't make it", r)
		}
	} else if e := t.isEvil(r.Pub); e == nil || !e.shared.Load() {
		t.Report("foreign-root", "root %s of a feed that is not shared is accepted", r)
	} else {
		t.k.Count("hostile_roots_received", 1)
	}
	return
}

// calls of the node for hostile connections
func (t *test) api() {
	var r = t.r
	for _, c := range t.a.Connections() {
		if c.PeerID() == t.g.ID() || t.b != nil && c.PeerID() == t.b.ID() {
			continue
		}
		var x = r.Intn(4)
		var pk = t.f.PK
		if len(t.evil) > 0 && r.Intn(2) == 0 {
			pk = t.evil[r.Intn(len(t.evil))].pk
		}
		t.Logf("api %d", x)
		var c = c
		t.k.Within("api-hang", fmt.Sprintf("%s\n%s", t.Name, t.Log()), time.Minute, func() {
			var err error
			switch x {
			case 0:
				_, err = c.RemoteFeeds()
			case 1:
				if e := t.isEvil(pk); e != nil {
					e.shared.Store(true)
				}
				err = c.Subscribe(pk)
			case 2:
				err = c.Preview(pk, func(p registry.Pack, r *registry.Root) bool {
					var n int
					r.Walk(p, func(nodem.H, int) (bool, error) {
						if n++; n > 20 {
							return false, registry.ErrStopIteration
						}
						return true, nil
					})
					return false
				})
			case 3:
				c.Unsubscribe(pk)
			}
			t.k.Count("api_calls", 1)
			if err != nil {
				t.k.Count("api_errors", 1)
			}
		})
	}
}

// other peers are served
func (t *test) alive() {
	var last *nodem.Root
	var ok = false
	for i := 0; i < 3 && !ok; i++ {
		if last = t.Publish(t.f, uint64(1+t.r.Intn(2))); last == nil {
			return
		}
		ok = nodem.Wait(20*time.Second, func() bool { return t.a.Has(last) })
	}
	if !ok {
		t.Report("not-replicated", "%s doesn't get roots of a good peer, the last is %d/%d\n%s\n%s", t.a.Name, last.R.Nonce, last.R.Seq, t.CB(), kit.Stacks())
		return
	}
	t.k.Count("roots_arrived", 1)
	if t.b != nil {
		if !nodem.Wait(20*time.Second, func() bool { return t.b.Has(last) }) {
			t.Report("not-served", "%s doesn't get roots from %s\n%s", t.b.Name, t.a.Name, t.CB())
		}
		t.k.Count("downstream", 1)
	}
}

func (t *test) check() {
	// the hostile are gone
	var want = 1
	if t.b != nil {
		want = 2
	}
	if !nodem.Wait(15*time.Second, func() bool { return len(t.a.Connections()) == want }) {
		t.Report("connections", "%s lists %d connections, but %d of them are alive\n%s", t.a.Name, len(t.a.Connections()), want, t.CB())
	}
	for _, n := range t.Nodes {
		t.CheckFeed(n, t.f)
	}
	// roots
	var c = t.a.Container()
	var allowed = make(map[nodem.H]bool)
	for _, x := range t.f.All() {
		for h := range x.Reach {
			allowed[h] = true
		}
	}
	for _, e := range t.evil {
		if e.shared.Load() {
			e.all(allowed)
		} else if hs, err := c.Heads(e.pk); err == nil && len(hs) > 0 {
			t.Report("foreign-root", "%s has heads of a feed it doesn't share", t.a.Name)
		}
	}
	for _, pk := range c.Feeds() {
		var hs, err = c.Heads(pk)
		if err != nil {
			t.Report("heads", "%v", err)
		}
		if pk != t.f.PK && t.isEvil(pk) == nil {
			t.Report("foreign-feed", "%s has feed %s", t.a.Name, pk.Hex())
		}
		for _, h := range hs {
			var last, err = c.LastRootSeq(pk, h)
			if err != nil {
				t.Report("last-root", "%v", err)
				continue
			}
			for s := last; s+40 > last; s-- {
				var r, err = c.Root(pk, h, s)
				if err == nil {
					if cipher.VerifyPubKeySignedHash(r.Pub, r.Sig, cipher.SumSHA256(r.Encode())) != nil || r.Pub != pk {
						t.Report("forged", "root %s with invalid signature is stored", r)
					}
					if pk == t.f.PK && t.f.ByHash(r.Hash) == nil {
						t.Report("forged", "root %s is stored but the owner didn't make it", r)
					}
					if pk != t.f.PK {
						t.k.Count("hostile_filled", 1)
					}
				}
				if s == 0 {
					break
				}
			}
		}
	}
	for h := range t.a.St.Snapshot() {
		if !allowed[h] {
			t.Report("foreign", "%s stores object %s that doesn't belong to a feed it shares", t.a.Name, h.Hex()[:7])
			return
		}
	}
}

// requests of a peer that are answered anyway
func (t *test) probe() {
	var r = t.r
	for i := 2; i > 0 && t.Bad() == 0; i-- {
		var p, err = nodem.Dial(t.a.TCPAddr(), nil)
		if err != nil {
			t.Report("probe-dial", "%v", err)
			return
		}
		var id nodem.PK
		r.Read(id[:])
		if peer, err := p.Hello(id); err != nil || peer != t.a.ID() {
			t.Report("probe-handshake", "handshake with %s: %v", t.a.Name, err)
			p.Close()
			return
		}
		var isErr = func(m msg.Msg) bool {
			t.k.Count("probe_errors", 1)
			var _, ok = m.(*msg.Err)
			return ok
		}
		for j := 1 + r.Intn(6); j > 0; j-- {
			var unknown nodem.PK
			r.Read(unknown[:])
			var m, bad msg.Msg
			var ok bool
			var ls = t.f.All()
			var x = ls[r.Intn(len(ls))]
			var ask = func(q msg.Msg) msg.Msg {
				bad = q
				m, err = p.Ask(q, 30*time.Second)
				return m
			}
			switch r.Intn(8) {
			case 0:
				ok = isErr(ask(&msg.Sub{Feed: unknown}))
			case 1:
				ok = isErr(ask(&msg.RqObject{Key: cipher.SumSHA256(unknown[:])}))
			case 2:
				ok = isErr(ask(&msg.RqPreview{Feed: unknown}))
			case 3:
				switch y := ask(&msg.RqList{}).(type) {
				case *msg.Err:
					ok = !t.a.Config().Public
				case *msg.List:
					ok = t.a.Config().Public && len(y.Feeds) == len(t.a.Feeds())
				}
			case 4:
				ok = isErr(ask(&msg.RqPeers{Feed: t.f.PK}))
			case 5:
				var _, is = ask(&msg.Sub{Feed: t.f.PK}).(*msg.Ok)
				ok = is
			case 6:
				if y, is := ask(&msg.RqPreview{Feed: t.f.PK}).(*msg.Root); is {
					ok = y.Feed == t.f.PK && t.f.ByHash(cipher.SumSHA256(y.Value)) != nil
				} else if _, err := nodem.Last(t.a.Container(), t.f.PK); err != nil {
					ok = true
				}
			case 7:
				if !t.a.Has(x) {
					continue
				}
				if y, is := ask(&msg.RqObject{Key: x.R.Hash}).(*msg.Object); is {
					ok = cipher.SumSHA256(y.Value) == x.R.Hash
				}
			}
			t.k.Count("probes", 1)
			if err != nil || !ok {
				t.Report("probe", "%s answers %T %v with %T %v: %v", t.a.Name, bad, bad, m, m, err)
			}
		}
		// it's disconnected then
		switch what := r.Intn(6); what {
		case 0:
			p.Frame(nil)
		case 1:
			p.Frame(make([]byte, 1+r.Intn(8)))
		case 2:
			var b = make([]byte, r.Intn(100))
			r.Read(b)
			p.Frame(nodem.Enc(p.Next(), 0, append([]byte{200}, b...)))
		case 3:
			p.Send(0, &msg.Sub{})
		case 4:
			p.Send(0, &msg.Unsub{})
		case 5:
			var b = (&msg.Err{Err: "the reason"}).Encode()
			p.Frame(nodem.Enc(p.Next(), 0, b[:1+r.Intn(len(b)-1)]))
		}
		if !p.Closed(20 * time.Second) {
			t.Report("probe-not-closed", "connection is not closed after a message that can't be decoded")
		}
		t.k.Count("probe_closed", 1)
		p.Close()
	}
}
