package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"

	"verif/cxstore"
	"verif/kit"
	"verif/nodem"

	"github.com/skycoin/cxo/node"
	"github.com/skycoin/cxo/node/msg"
	"github.com/skycoin/cxo/skyobject/registry"
	"github.com/skycoin/skycoin/src/cipher"
)

// previews through connections of real nodes
func nodes(k *kit.K) {
	var amount = k.N(120, 1500)
	var ch = make(chan int)
	var wg sync.WaitGroup
	for i := 0; i < 16; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				if k.Bad() < 15 {
					k.Within("hang", fmt.Sprint("nodes ", i), 2*time.Minute, func() {
						k.Guard("panic", fmt.Sprint("nodes ", i), func() { nodeOne(k, k.Rng("n", i), i) })
					})
				}
			}
		}()
	}
	for i := 0; i < amount; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

// ways to answer for the preview
const (
	goodRoot = iota
	errAnswer
	otherFeed  // honest, but of another feed
	otherValue // root of another feed, with signature of its owner
	otherSign  // root of another feed, signed by owner of the feed
	forged     // value is changed
	badSign    // signature is changed
	oldSign    // signature of another root
	wrongType
	silence
	leave
	ways
)

type nodeTest struct {
	*nodem.World
	k     *kit.K
	r     *rand.Rand
	b     *nodem.N
	f, of *nodem.Feed
	x     *nodem.Root
	local map[H]bool

	mx     sync.Mutex
	asks   map[H]int
	way    int
	refuse map[H]int // 1 - error, 2 - wrong value, 3 - changed value, 4 - wrong type, 5 - error at first
	sub    int       // 0 - ok, 1 - error
	subs   int
}

func nodeOne(k *kit.K, r *rand.Rand, n int) {
	var w = nodem.NewWorld(k, r, fmt.Sprint("preview world ", n))
	defer w.Close()
	var t = &nodeTest{World: w, k: k, r: r, local: make(map[H]bool), asks: make(map[H]int), refuse: make(map[H]int)}
	var a = w.Node(nodem.Opt{})
	t.f, t.of = w.Feed(0, r.Intn(2) == 0), w.Feed(0, true)
	var empty = w.Feed(0, true)
	for _, f := range w.Feeds {
		if err := a.Share(f.PK); err != nil {
			w.Report("share", "%v", err)
			return
		}
	}
	for i := 1 + r.Intn(3); i > 0; i-- {
		t.x = w.Save(a, t.f, 1)
	}
	var ox = w.Save(a, t.of, 1)
	if t.x == nil || ox == nil {
		return
	}
	// local objects
	var st, part = cxstore.New(), r.Intn(5)
	for h := range t.x.Reach {
		if h != t.x.R.Hash && (part > 2 || r.Intn(3) < part) {
			var v, _ = t.f.Value(h)
			st.Set(h, v, 1+r.Intn(3))
			t.local[h] = true
		}
	}
	t.b = w.Node(nodem.Opt{Store: st, Timeout: 2 * time.Second, Loose: true})
	if r.Intn(3) == 0 {
		t.real(a, empty)
		return
	}
	t.raw(ox)
}

// own objects of the x, except the root
func (t *nodeTest) objects() (n int) { return len(t.x.Reach) - 1 }

func (t *nodeTest) before() map[H]cxstore.Obj { return t.b.St.Snapshot() }

// the store is the same
func (t *nodeTest) same(before map[H]cxstore.Obj) {
	var now = t.b.St.Snapshot()
	for h, o := range now {
		if b, ok := before[h]; !ok {
			t.Report("stored", "object %s is stored by a preview", h.Hex()[:6])
			return
		} else if b.RC != o.RC || !bytes.Equal(b.Val, o.Val) {
			t.Report("stored", "object %s is changed by a preview: counter %d -> %d", h.Hex()[:6], b.RC, o.RC)
			return
		}
	}
	if len(now) != len(before) {
		t.Report("stored", "%d objects are removed by a preview", len(before)-len(now))
	}
}

// look at everything through the pack
func (t *nodeTest) look(pack registry.Pack, r *registry.Root) (got int) {
	if r == nil || pack == nil {
		t.Report("root", "no root or pack")
		return
	}
	if r.Hash != t.x.R.Hash || r.Pub != t.f.PK || r.Sig != t.x.R.Sig || !bytes.Equal(r.Encode(), t.x.R.Encode()) {
		t.Report("root", "the root is not that was sent")
		return
	}
	if ref := pack.Registry().Reference(); ref != t.x.R.Reg {
		t.Report("registry", "wrong registry %s", ref.Short())
		return
	}
	var bad = func(h H) bool {
		t.mx.Lock()
		defer t.mx.Unlock()
		return !t.local[h] && t.refuse[h] > 0
	}
	var have = make(map[H]bool)
	var get = func(h H) bool {
		var want, _ = t.f.Value(h)
		var v, err = pack.Get(h)
		if err != nil {
			if !bad(h) {
				t.Report("get", "get %s: %v", h.Hex()[:6], err)
				return false
			}
			t.k.Count("node_objects_refused", 1)
			return true
		}
		if !bytes.Equal(v, want) {
			t.Report("wrong-value", "get %s returns a wrong value", h.Hex()[:6])
			return false
		}
		have[h] = true
		return true
	}
	if t.r.Intn(2) == 0 {
		for h := range t.x.Reach {
			if h != t.x.R.Hash && !get(h) {
				return
			}
		}
	}
	for i := 1 + t.r.Intn(2); i > 0; i-- {
		var seen = make(map[H]bool)
		var err = r.Walk(pack, func(h H, _ int) (bool, error) {
			seen[h] = true
			return true, nil
		})
		if err != nil {
			var any bool
			for h := range t.x.Reach {
				any = any || bad(h)
			}
			if !any {
				t.Report("walk", "walk: %v", err)
				return
			}
			t.k.Count("node_walks_refused", 1)
			continue
		}
		for h := range t.x.Reach {
			if !seen[h] && h != t.x.R.Hash && h != H(t.x.R.Reg) {
				t.Report("walk", "walk doesn't visit %s", h.Hex()[:6])
				return
			}
		}
		for h := range seen {
			if h != (H{}) && !t.x.Reach[h] {
				t.Report("walk", "walk visits %s, not of the root", h.Hex()[:6])
				return
			}
		}
		t.k.Count("node_walks", 1)
		for h := range seen {
			if h != (H{}) && h != t.x.R.Hash && !get(h) {
				return
			}
		}
	}
	var un H
	t.r.Read(un[:])
	if _, err := pack.Get(un); err == nil {
		t.Report("get", "an unknown object is found")
	}
	return len(have)
}

func (t *nodeTest) subscribed(c *node.Conn) (sharing, conn bool) {
	sharing = t.b.IsSharing(t.f.PK)
	for _, pk := range c.Feeds() {
		conn = conn || pk == t.f.PK
	}
	return
}

// preview of a peer that is a node
func (t *nodeTest) real(a *nodem.N, empty *nodem.Feed) {
	var c, err = t.b.Connect(a, false)
	if err != nil {
		t.Report("connect", "%v", err)
		return
	}
	var no = func(pk nodem.PK, what string) {
		var called bool
		var start = time.Now()
		if err := c.Preview(pk, func(registry.Pack, *registry.Root) bool { called = true; return true }); err == nil || called {
			t.Report("no-root", "preview of %s: called %v, %v", what, called, err)
		} else if err == node.ErrTimeout || time.Since(start) > 15*time.Second {
			t.Report("no-answer", "a node doesn't answer that it has no %s: %v, %v", what, err, time.Since(start))
		}
		if t.b.IsSharing(pk) {
			t.Report("shared", "failed preview of %s shares it", what)
		}
		t.k.Count("node_errors", 1)
	}
	no(empty.PK, "a feed without roots")
	var pk, _, _ = cipher.GenerateDeterministicKeyPair([]byte(t.Name))
	no(pk, "an unknown feed")
	if t.Bad() > 0 {
		return
	}

	for i := 1 + t.r.Intn(3); i > 0 && t.Bad() == 0; i-- {
		var before = t.before()
		var called, got int
		if err = c.Preview(t.f.PK, func(pack registry.Pack, r *registry.Root) bool {
			called++
			got = t.look(pack, r)
			t.same(before)
			return false
		}); err != nil || called != 1 {
			t.Report("preview", "preview: called %d times, %v", called, err)
			return
		}
		t.same(before)
		t.k.Count("node_previews", 1)
		if sh, conn := t.subscribed(c); sh || conn || len(a.ConnectionsOfFeed(t.f.PK)) > 0 {
			t.Report("subscribed", "a preview that returns false subscribes: shared %v, connection %v", sh, conn)
			return
		}
		t.k.Count("node_not_subscribed", 1)
		t.k.Case(got > 0, fmt.Sprint("real", len(t.x.Reach), len(t.local), got))
		if t.r.Intn(2) == 0 { // the next is preview of the new root
			if x := t.Save(a, t.f, 1); x != nil {
				t.x = x
			}
		}
	}
	// a stored object means that all it refers to is stored too, and
	// the local part here is random
	if t.Bad() > 0 || len(t.local) > 0 && len(t.local) < t.objects() {
		return
	}
	if err = c.Preview(t.f.PK, func(pack registry.Pack, r *registry.Root) bool {
		return r.Hash == t.x.R.Hash
	}); err != nil {
		t.Report("preview", "preview and subscribe: %v", err)
		return
	}
	if sh, conn := t.subscribed(c); !sh || !conn {
		t.Report("not-subscribed", "a preview that returns true doesn't subscribe: shared %v, connection %v", sh, conn)
		return
	}
	if !nodem.Wait(30*time.Second, func() bool { return t.b.Has(t.x) }) {
		t.Report("not-received", "subscribed by a preview, but the root is not received\n%s", t.CB())
		return
	}
	t.CheckRoot(t.b, t.f, t.x)
	t.k.Count("node_subscribed", 1)
}

func (t *nodeTest) value(h H) []byte {
	var v, ok = t.f.Value(h)
	if !ok {
		v, _ = t.of.Value(h) // to serve a foreign root too
	}
	return append([]byte(nil), v...)
}

// answers of the raw peer
func (t *nodeTest) answer(p *nodem.Raw, ox *nodem.Root, r *rand.Rand) func(f nodem.Frame) bool {
	return func(f nodem.Frame) bool {
		t.mx.Lock()
		defer t.mx.Unlock()
		switch m := f.M.(type) {
		case *msg.RqPreview:
			if m.Feed != t.f.PK {
				t.Report("request", "preview of another feed is requested")
			}
			var a = &msg.Root{Feed: t.f.PK, Nonce: t.x.R.Nonce, Seq: t.x.R.Seq, Value: t.x.R.Encode(), Sig: t.x.R.Sig}
			switch t.way {
			case errAnswer:
				p.Send(f.Seq, &msg.Err{Err: "refused"})
				return true
			case otherFeed:
				a = &msg.Root{Feed: t.of.PK, Nonce: ox.R.Nonce, Seq: ox.R.Seq, Value: ox.R.Encode(), Sig: ox.R.Sig}
			case otherValue:
				a.Value, a.Sig = ox.R.Encode(), ox.R.Sig
			case otherSign:
				a.Value = ox.R.Encode()
				a.Sig, _ = cipher.SignHash(cipher.SumSHA256(a.Value), t.f.SK)
			case forged:
				a.Value[r.Intn(len(a.Value))] ^= 1 << uint(r.Intn(8))
			case badSign:
				a.Sig[r.Intn(60)] ^= 1 << uint(r.Intn(8))
			case oldSign:
				a.Sig, _ = cipher.SignHash(ox.R.Hash, t.f.SK)
			case wrongType:
				switch r.Intn(3) {
				case 0:
					p.Send(f.Seq, &msg.Ok{})
				case 1:
					p.Send(f.Seq, &msg.Object{Value: t.x.R.Encode()})
				case 2:
					p.Send(f.Seq, &msg.List{Feeds: []nodem.PK{t.f.PK}})
				}
				return true
			case silence:
				return true
			case leave:
				p.Close()
				return true
			}
			p.Send(f.Seq, a)
		case *msg.RqObject:
			t.asks[m.Key]++
			if t.local[m.Key] {
				t.Report("requested", "object %s is requested, but it is stored locally", m.Key.Hex()[:6])
			}
			var v = t.value(m.Key)
			var how = t.refuse[m.Key]
			if len(v) == 0 {
				how = 1
			}
			switch how {
			case 0:
				p.Send(f.Seq, &msg.Object{Value: v})
			case 1:
				p.Send(f.Seq, &msg.Err{Err: "no such object"})
			case 2:
				for h := range t.x.Reach {
					if h != m.Key {
						v = t.value(h)
						break
					}
				}
				p.Send(f.Seq, &msg.Object{Value: v})
			case 3:
				v[r.Intn(len(v))] ^= 1 << uint(r.Intn(8))
				p.Send(f.Seq, &msg.Object{Value: v})
			case 4:
				p.Send(f.Seq, &msg.Ok{})
			}
		case *msg.Sub:
			t.subs++
			if t.sub == 0 {
				p.Send(f.Seq, &msg.Ok{})
			} else {
				p.Send(f.Seq, &msg.Err{Err: "don't want"})
			}
		default:
			return false
		}
		return true
	}
}

// preview of a peer that can do anything
func (t *nodeTest) raw(ox *nodem.Root) {
	var id, _, _ = cipher.GenerateDeterministicKeyPair([]byte("peer" + t.Name))
	var p *nodem.Raw
	var on atomic.Value
	var err error
	if p, err = nodem.Dial(t.b.TCPAddr(), func(f nodem.Frame) bool {
		if h, ok := on.Load().(func(nodem.Frame) bool); ok {
			return h(f)
		}
		return false
	}); err != nil {
		t.Report("dial", "%v", err)
		return
	}
	defer p.Close()
	if _, err = p.Hello(id); err != nil {
		t.Report("handshake", "%v", err)
		return
	}
	on.Store(t.answer(p, ox, rand.New(rand.NewSource(t.r.Int63()))))
	var c *node.Conn
	if !nodem.Wait(20*time.Second, func() bool {
		for _, x := range t.b.Connections() {
			if x.PeerID() == id {
				c = x
			}
		}
		return c != nil
	}) {
		t.Report("connection", "no connection")
		return
	}
	var shared bool
	for i := 3 + t.r.Intn(6); i > 0 && t.Bad() == 0; i-- {
		t.mx.Lock()
		t.way = goodRoot
		if t.r.Intn(2) == 0 {
			if t.way = 1 + t.r.Intn(ways-1); t.way == leave && i > 1 || t.way == silence && t.r.Intn(3) > 0 {
				t.way = forged
			}
		}
		t.asks = make(map[H]int)
		t.refuse = make(map[H]int)
		if t.r.Intn(2) == 0 {
			for h := range t.x.Reach {
				if h != H(t.x.R.Reg) && t.r.Intn(6) == 0 || h == H(t.x.R.Reg) && t.r.Intn(20) == 0 {
					t.refuse[h] = 1 + t.r.Intn(4)
				}
			}
		}
		t.sub = t.r.Intn(2)
		var way, sub, subs = t.way, t.sub, t.subs
		var noReg = !t.local[H(t.x.R.Reg)] && t.refuse[H(t.x.R.Reg)] > 0
		t.mx.Unlock()

		var want = t.r.Intn(3) == 0
		var before = t.before()
		var called, got int
		var start = time.Now()
		err = c.Preview(t.f.PK, func(pack registry.Pack, r *registry.Root) bool {
			called++
			got = t.look(pack, r)
			t.same(before)
			return want
		})
		t.Logf("preview: way %d, refuse %d, registry refused %v, subscribe %v (%d), called %d, got %d: %v", way, len(t.refuse), noReg, want, sub, called, got, err)
		if d := time.Since(start); d > 45*time.Second {
			t.Report("slow", "preview takes %v", d)
			return
		}
		t.same(before)
		var sh, conn = t.subscribed(c)
		t.mx.Lock()
		subs = t.subs - subs
		for h, n := range t.asks {
			var _, ok = t.f.Value(h)
			if n > 1 && t.refuse[h] == 0 && ok && h != H(t.x.R.Reg) {
				t.Report("requested", "object %s is requested and received %d times", h.Hex()[:6], n)
			}
		}
		t.mx.Unlock()
		if way != goodRoot || noReg {
			if err == nil || called > 0 {
				t.Report("refuse", "answer %d (registry refused: %v) is accepted: called %d, %v", way, noReg, called, err)
				return
			}
			if subs > 0 || sh != shared || !shared && conn {
				t.Report("subscribed", "failed preview subscribes")
				return
			}
			switch way {
			case otherFeed, otherValue, otherSign:
				t.k.Count("node_foreign_root_refused", 1)
			case forged, badSign, oldSign:
				t.k.Count("node_forged_refused", 1)
			default:
				t.k.Count("node_errors", 1)
			}
			continue
		}
		if called != 1 {
			t.Report("preview", "preview: called %d times, %v", called, err)
			return
		}
		t.k.Count("node_previews", 1)
		t.k.Case(got > 0, fmt.Sprint("raw", len(t.x.Reach), len(t.local), got, len(t.refuse), want))
		switch {
		case !want:
			if err != nil {
				t.Report("preview", "preview fails: %v", err)
			}
			if subs > 0 || sh != shared || !shared && conn {
				t.Report("subscribed", "a preview that returns false subscribes")
				return
			}
			t.k.Count("node_not_subscribed", 1)
		case sub == 0:
			if err != nil || !sh || !conn || subs != 1 {
				t.Report("not-subscribed", "a preview that returns true doesn't subscribe: shared %v, connection %v, requests %d: %v", sh, conn, subs, err)
				return
			}
			t.k.Count("node_subscribed", 1)
			c.Unsubscribe(t.f.PK)
			shared = true
		default:
			if err == nil || conn || subs != 1 {
				t.Report("not-subscribed", "subscription is refused, but the preview returns %v, connection %v, requests %d", err, conn, subs)
				return
			}
			t.k.Count("node_subscription_refused", 1)
			shared = true // by doc
		}
	}
	// objects that are stored
	if t.Bad() == 0 && len(t.local) > 0 {
		t.k.Count("node_local_not_asked", len(t.local))
	}
}
