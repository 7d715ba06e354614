// C17: references counters of saved and deleted roots
package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"verif/graphm"
	"verif/kit"
	"verif/regm"

	"github.com/skycoin/cxo/cxoutils"
	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/skyobject"
	"github.com/skycoin/cxo/skyobject/registry"
	"github.com/skycoin/skycoin/src/cipher"
	"github.com/skycoin/skycoin/src/cipher/encoder"
)

// H is hash
type H = cipher.SHA256

func main() {
	kit.Main("C17", kit.Opts{
		Rule: "random histories of saving roots (objects shared inside and between roots, stored several times, stored and not used, old objects used again, " +
			"roots changed from previous ones), failed savings that are retried or given up, deletions of roots, heads and feeds, cleanings and reopenings; " +
			"after each step every object ever made is compared with what the remaining roots reach; non-trivial if there were two roots at once; distinct by " +
			"the reached objects",
		Need: []string{"saved", "failed_saves", "given_up", "retried", "deleted_roots", "deleted_heads", "deleted_feeds", "cleanings", "reopenings",
			"objects_checked", "objects_kept", "objects_dropped", "shared_between_roots", "used_again_after_drop",
			"concurrent", "concurrent_deletions", "open_together", "open_given_up", "resumed", "pinned_checked"},
		MinCases: 200,
	}, run)
}

func run(k *kit.K) {
	for i := 0; i < k.N(400, 12000) && k.Bad() < 15; i++ {
		k.Within("hang", fmt.Sprint(i), time.Minute, func() { (&hist{k: k, r: k.Rng("hist", i), n: i}).run() })
	}
	for i := 0; i < k.N(100, 3000) && k.Bad() < 15; i++ {
		k.Within("hang", fmt.Sprint("c", i), time.Minute, func() { (&hist{k: k, r: k.Rng("conc", i), n: i}).conc() })
	}
	interleaved(k)
}

// an open Unpack with stored objects
type pending struct {
	f    int
	up   *skyobject.Unpack
	rt   *registry.Root
	ns   []*graphm.Node
	pins map[H]bool
}

type root struct {
	pk    cipher.PubKey
	nonce uint64
	seq   uint64
	hash  H
	nodes []*graphm.Node
	r     *registry.Root
}

type hist struct {
	k *kit.K
	r *rand.Rand
	n int

	dir  string
	conf *skyobject.Config
	c    *skyobject.Container
	reg  *registry.Registry
	g    *graphm.G

	sk   []cipher.SecKey
	pk   []cipher.PubKey
	feed []bool

	live []*root
	pend []*pending
	pins map[H]bool   // stored by the current Unpack
	vals map[H][]byte // everything ever stored
	dead map[H]bool   // was dropped
	log  []string
}

func (h *hist) logf(f string, a ...interface{}) { h.log = append(h.log, fmt.Sprintf(f, a...)) }

func (h *hist) cas() string {
	var s = h.g.String()
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return fmt.Sprintf("history %d\n%s\n%s", h.n, s, strings.Join(h.log, "\n"))
}

func (h *hist) bad(key, f string, a ...interface{}) { h.k.Violate(key, h.cas(), f, a...) }

func (h *hist) config() {
	var c, r = skyobject.NewConfig(), h.r
	c.Degree = registry.Degree(2 + r.Intn(6))
	switch r.Intn(4) {
	case 0:
		c.CacheMaxAmount = 0
	case 1:
		c.CacheMaxAmount = 1 + r.Intn(12)
	case 2:
		c.CacheMaxVolume = 500 + r.Intn(1000)
		c.CacheMaxItemSize = c.CacheMaxVolume / 6
	}
	c.CachePolicy = skyobject.CachePolicy(r.Intn(2))
	c.CacheRegistries = r.Intn(3)
	c.DataDir = h.dir
	h.conf = c
}

func (h *hist) open() bool {
	var err error
	if h.c, err = skyobject.NewContainer(h.conf); err != nil {
		h.bad("open", "%v", err)
		return false
	}
	return true
}

func (h *hist) run() {
	var r = h.r
	if !h.init() {
		return
	}
	defer os.RemoveAll(h.dir)
	var two bool
	for i, n := 0, 4+r.Intn(12); i < n && h.k.Bad() < 15; i++ {
		var ok bool
		if !h.k.Guard("panic", "", func() { ok = h.step() }) {
			h.bad("panic", "see above")
			return
		}
		if !ok {
			return
		}
		two = two || len(h.live) > 1
		if !h.check() {
			return
		}
	}
	for len(h.pend) > 0 {
		if !h.resume() || !h.check() {
			return
		}
	}
	// finally delete all
	for len(h.live) > 0 {
		if !h.delRoot() || !h.check() {
			return
		}
	}
	if err := h.c.Close(); err != nil {
		h.bad("close", "%v", err)
	}
	h.k.Case(two, strings.Join(h.log, "\n"))
}

func (h *hist) init() bool {
	var r = h.r
	h.dir = filepath.Join(os.TempDir(), fmt.Sprint("h", h.n))
	h.config()
	h.vals = make(map[H][]byte)
	h.dead = make(map[H]bool)
	var s = regm.NewSet(r, regm.Cfg{Max: 4, Refs: r.Intn(5) > 0})
	h.reg = s.Registry(s.Order())
	for i := 0; i < 2; i++ {
		var pk, sk, _ = cipher.GenerateDeterministicKeyPair([]byte(fmt.Sprint("c17", h.n, i)))
		h.pk, h.sk, h.feed = append(h.pk, pk), append(h.sk, sk), append(h.feed, false)
	}
	h.g = graphm.New(r, s, h.reg, func(v []byte) H {
		var x = cipher.SumSHA256(v)
		h.vals[x] = v
		return x
	})
	h.g.Max = 120
	h.g.NoEmpty = true
	return h.open()
}

// one goroutine saves, others delete and read
func (h *hist) conc() {
	if !h.init() {
		return
	}
	defer os.RemoveAll(h.dir)
	var r = h.r
	for i := range h.pk {
		if err := h.c.AddFeed(h.pk[i]); err != nil {
			h.bad("feed", "%v", err)
			return
		}
	}
	var (
		dels = make(chan *root, 100)
		keep = make(chan *root, 100)
		done = make(chan struct{})
		stop = make(chan struct{})
		wg   sync.WaitGroup
		mx   sync.Mutex
		hs   []H
		dr   = h.k.Rng("del", h.n)
	)
	go func() {
		defer close(done)
		for x := range dels {
			if dr.Intn(4) == 0 {
				keep <- x
				continue
			}
			if err := h.c.DelRoot(x.pk, x.nonce, x.seq); err != nil {
				h.k.Violate("delete", fmt.Sprint("concurrent ", h.n), "DelRoot: %v", err)
			}
			h.k.Count("concurrent_deletions", 1)
		}
		close(keep)
	}()
	wg.Add(1)
	go func() {
		defer wg.Done()
		for {
			select {
			case <-stop:
				return
			default:
			}
			mx.Lock()
			var x H
			if len(hs) > 0 {
				x = hs[rand.Intn(len(hs))]
			}
			mx.Unlock()
			h.c.Get(x, 0)
			h.c.Feeds()
			h.c.ActiveHead(h.pk[0])
		}
	}()
	for i := 8 + r.Intn(20); i > 0; i-- {
		var f = r.Intn(len(h.pk))
		var rt = &registry.Root{Pub: h.pk[f], Nonce: uint64(1 + r.Intn(2)), Reg: h.reg.Reference()}
		var ns []*graphm.Node
		rt.Refs, ns = h.content(nil)
		var up, err = h.c.Unpack(h.sk[f], h.reg)
		if err != nil {
			h.bad("unpack", "%v", err)
			break
		}
		h.live = nil // store everything
		if !h.supply(up, ns, nil) {
			break
		}
		if err = h.c.Save(up, rt); err != nil {
			h.bad("save", "%v", err)
			break
		}
		h.logf("saved %d/%d/%d %s", f, rt.Nonce, rt.Seq, rt.Hash.Hex()[:6])
		h.vals[rt.Hash] = rt.Encode()
		h.vals[H(rt.Reg)] = h.reg.Encode()
		mx.Lock()
		for x := range graphm.Reach(ns) {
			hs = append(hs, x)
		}
		mx.Unlock()
		dels <- &root{rt.Pub, rt.Nonce, rt.Seq, rt.Hash, ns, rt}
	}
	close(dels)
	<-done
	close(stop)
	wg.Wait()
	for x := range keep {
		h.live = append(h.live, x)
	}
	if h.k.Bad() > 0 || !h.check() {
		return
	}
	if err := h.c.Close(); err != nil {
		h.bad("close", "%v", err)
		return
	}
	h.config()
	if h.open() && h.check() {
		h.c.Close()
	}
	h.k.Count("concurrent", 1)
	h.k.Case(len(h.live) > 1, strings.Join(h.log, "\n"))
}

// two Unpacks at the same time
func interleaved(k *kit.K) {
	var h = &hist{k: k, r: k.Rng("inter"), n: 0}
	if !h.init() {
		return
	}
	defer os.RemoveAll(h.dir)
	type leaf struct{ N uint64 }
	type node struct {
		L registry.Ref `skyobject:"schema=t.leaf"`
	}
	h.reg = registry.NewRegistry(func(r *registry.Reg) {
		r.Register("t.leaf", leaf{})
		r.Register("t.node", node{})
	})
	var l, a = encoder.Serialize(leaf{1}), []byte(nil)
	a = encoder.Serialize(node{registry.Ref{Hash: cipher.SumSHA256(l)}})
	var sc, _ = h.reg.SchemaByName("t.node")
	if err := h.c.AddFeed(h.pk[0]); err != nil {
		h.bad("feed", "%v", err)
		return
	}
	var u1, _ = h.c.Unpack(h.sk[0], h.reg)
	var u2, _ = h.c.Unpack(h.sk[0], h.reg)
	for _, u := range []*skyobject.Unpack{u1, u2} {
		u.Add(l)
		u.Add(a)
	}
	var rt = &registry.Root{Pub: h.pk[0], Nonce: 1, Refs: []registry.Dynamic{{Hash: cipher.SumSHA256(a), Schema: sc.Reference()}}}
	if err := h.c.Save(u2, rt); err != nil {
		h.bad("save", "%v", err)
		return
	}
	u1.Close()
	var _, rc, err = h.c.Get(cipher.SumSHA256(l), 0)
	if err != nil || rc == 0 {
		k.Violate("interleaved-unpacks", "U1 stores N->L, U2 stores N->L and saves a root with N, U1 is closed without saving",
			"the counter of L is %d (%v), but the root needs it", rc, err)
	}
	// an Unpack is given up after a deletion
	l = encoder.Serialize(leaf{2})
	a = encoder.Serialize(node{registry.Ref{Hash: cipher.SumSHA256(l)}})
	rt.Refs[0].Hash = cipher.SumSHA256(a)
	u1, _ = h.c.Unpack(h.sk[0], h.reg)
	u1.Add(l)
	u1.Add(a)
	rt.Nonce = 2
	if err = h.c.Save(u1, rt); err != nil {
		h.bad("save", "%v", err)
		return
	}
	u2, _ = h.c.Unpack(h.sk[0], h.reg)
	u2.Add(a)
	h.c.DelRoot(rt.Pub, 2, rt.Seq)
	u2.Close()
	if _, rc, err = h.c.Get(cipher.SumSHA256(l), 0); err != nil || rc != 0 {
		k.Violate("given-up-after-delete", "a root has N->L, U stores N, the root is deleted, U is closed without saving",
			"the counter of L is %d (%v), but no root needs it", rc, err)
	}
	h.c.Close()
}

func (h *hist) step() bool {
	var r = h.r
	switch x := r.Intn(24); {
	case x >= 20:
		return h.resume()
	case x < 11:
		return h.save()
	case x < 14:
		return h.delRoot()
	case x == 14:
		return h.delHead()
	case x == 15:
		return h.delFeed()
	case x < 18:
		return h.clean()
	default:
		h.logf("reopen")
		h.k.Count("reopenings", 1)
		if len(h.pend) > 0 && r.Intn(3) > 0 {
			return true
		}
		for len(h.pend) > 0 {
			if !h.giveUp() || !h.check() {
				return false
			}
		}
		if err := h.c.Close(); err != nil {
			h.bad("close", "%v", err)
			return false
		}
		// nothing of the cache remains, look into the files
		h.config()
		return h.open()
	}
}

func (h *hist) reach() map[H]bool {
	var ns []*graphm.Node
	for _, x := range h.live {
		ns = append(ns, x.nodes...)
	}
	var m = graphm.Reach(ns)
	for _, x := range h.live {
		m[x.hash] = true
		m[H(x.r.Reg)] = true
	}
	return m
}

func (h *hist) counters() (m map[H]int, ok bool) {
	m = make(map[H]int)
	for x := range h.vals {
		var v, rc, err = h.c.Get(x, 0)
		if err == data.ErrNotFound {
			continue
		}
		if err != nil {
			h.bad("get", "%s: %v", x.Hex()[:6], err)
			return nil, false
		}
		if !bytes.Equal(v, h.vals[x]) {
			h.bad("value", "the value of %s changed", x.Hex()[:6])
			return nil, false
		}
		m[x] = rc
	}
	return m, true
}

func (h *hist) check() bool {
	var need = h.reach()
	var m, ok = h.counters()
	if !ok {
		return false
	}
	var pinned = make(map[H]bool)
	for _, p := range h.pend {
		for x := range p.pins {
			pinned[x] = true
		}
	}
	for x := range h.vals {
		if pinned[x] {
			h.k.Count("pinned_checked", 1)
		}
		var rc, has = m[x]
		h.k.Count("objects_checked", 1)
		switch {
		case pinned[x] && !has:
			h.bad("lost", "object %s is not stored, but an open Unpack stored it", x.Hex()[:6])
			return false
		case need[x] && !has:
			h.bad("lost", "object %s is not stored, but a root needs it", x.Hex()[:6])
			return false
		case need[x] && rc <= 0:
			h.bad("unheld", "object %s has counter %d, but a root needs it", x.Hex()[:6], rc)
			return false
		case !need[x] && has && rc != 0:
			h.bad("leak", "object %s has counter %d, but no root needs it", x.Hex()[:6], rc)
			return false
		case need[x]:
			h.k.Count("objects_kept", 1)
			if h.dead[x] {
				delete(h.dead, x)
				h.k.Count("used_again_after_drop", 1)
			}
		case has:
			h.dead[x] = true
			h.k.Count("objects_dropped", 1)
		}
	}
	// every root can be read
	for i, x := range h.live {
		var got = make(map[H]bool)
		var rt, err = h.c.Root(x.pk, x.nonce, x.seq)
		if err != nil || rt.Hash != x.hash {
			h.bad("root", "can't get root %d/%d: %v", x.nonce, x.seq, err)
			return false
		}
		if err = h.c.Walk(rt, func(y H, _ int) (bool, error) { got[y] = true; return true, nil }); err != nil {
			h.bad("walk", "can't walk root %d/%d: %v", x.nonce, x.seq, err)
			return false
		}
		var want = graphm.Reach(x.nodes)
		want[x.hash], want[H(x.r.Reg)] = true, true
		delete(got, H{})
		if len(got) != len(want) {
			h.bad("walk", "root %d/%d: visited %d objects of %d", x.nonce, x.seq, len(got), len(want))
			return false
		}
		for y := range want {
			if !got[y] {
				h.bad("walk", "root %d/%d: %s is not visited", x.nonce, x.seq, y.Hex()[:6])
				return false
			}
		}
		if i > 0 {
			for y := range want {
				if y != H(x.r.Reg) && graphm.Reach(h.live[i-1].nodes)[y] {
					h.k.Count("shared_between_roots", 1)
					break
				}
			}
		}
	}
	return true
}

// store everything the nodes need that is not stored
func (h *hist) supply(up *skyobject.Unpack, ns []*graphm.Node, have map[H]int) bool {
	var r = h.r
	var put []H
	var seen = make(map[H]bool)
	var kept = h.reach()
	var walk func(n *graphm.Node)
	walk = func(n *graphm.Node) {
		if n.Hash == (H{}) || seen[n.Hash] {
			return
		}
		seen[n.Hash] = true
		var _, stored = have[n.Hash]
		switch {
		case kept[n.Hash]: // may be used without storing
			if r.Intn(4) == 0 {
				put = append(put, n.Hash)
				break
			}
			return
		case stored && r.Intn(3) > 0:
			// dropped, but it is still there; use it as is
		default:
			put = append(put, n.Hash)
			for r.Intn(6) == 0 {
				put = append(put, n.Hash) // again
			}
		}
		for _, x := range n.Kids {
			walk(x)
		}
	}
	for _, n := range ns {
		walk(n)
	}
	r.Shuffle(len(put), func(i, j int) { put[i], put[j] = put[j], put[i] })
	for _, x := range put {
		h.logf("store %s", x.Hex()[:6])
		if !h.put(up, h.vals[x]) {
			return false
		}
	}
	return true
}

func (h *hist) put(up *skyobject.Unpack, v []byte) bool {
	var x = cipher.SumSHA256(v)
	if h.pins != nil {
		h.pins[x] = true
	}
	if h.r.Intn(2) == 0 {
		if y, err := up.Add(v); err != nil || x != y {
			h.bad("store", "Add: %v", err)
			return false
		}
	} else if err := up.Set(x, v); err != nil {
		h.bad("store", "Set: %v", err)
		return false
	}
	return true
}

// make objects of a root
func (h *hist) content(was *root) (refs []registry.Dynamic, ns []*graphm.Node) {
	var r = h.r
	if was != nil {
		refs = append(refs, was.r.Refs...)
		ns = append(ns, was.nodes...)
		for i := range refs {
			if r.Intn(3) == 0 {
				refs = append(refs[:i:i], refs[i+1:]...)
				ns = append(ns[:i:i], ns[i+1:]...)
				break
			}
		}
	}
	for i := r.Intn(6); i > 0; i-- {
		h.g.Add()
	}
	for i := r.Intn(4); i > 0; i-- {
		var d, n = h.g.Dynamic(h.g.Max)
		refs, ns = append(refs, d), append(ns, n)
		if r.Intn(5) == 0 { // twice
			refs, ns = append(refs, d), append(ns, n)
		}
	}
	return
}

func (h *hist) save() bool {
	var r = h.r
	var f = r.Intn(len(h.pk))
	var fail = 0
	if r.Intn(4) == 0 {
		fail = 1 + r.Intn(3)
	}
	if !h.feed[f] && fail != 1 {
		if err := h.c.AddFeed(h.pk[f]); err != nil {
			h.bad("feed", "%v", err)
			return false
		}
		h.feed[f] = true
	}
	var before, ok = h.counters()
	if !ok {
		return false
	}
	var rt = &registry.Root{Pub: h.pk[f], Nonce: uint64(1 + r.Intn(2)), Reg: h.reg.Reference()}
	if r.Intn(4) == 0 {
		rt.Reg = registry.RegistryRef{}
	}
	var was *root
	if r.Intn(2) == 0 {
		for _, x := range h.live {
			if x.pk == rt.Pub && x.nonce == rt.Nonce {
				was = x
			}
		}
		if was != nil && r.Intn(2) == 0 {
			var c = *was.r
			rt = &c
		}
	}
	var ns []*graphm.Node
	h.pins = make(map[H]bool)
	rt.Refs, ns = h.content(was)
	if r.Intn(3) == 0 {
		rt.Descriptor = []byte{byte(r.Intn(256))}
	}
	var up, err = h.c.Unpack(h.sk[f], h.reg)
	if err != nil {
		h.bad("unpack", "%v", err)
		return false
	}
	h.logf("unpack %d/%d", f, rt.Nonce)
	var supplied = fail == 0 || r.Intn(2) == 0
	if supplied && !h.supply(up, ns, before) {
		return false
	}
	for r.Intn(3) == 0 { // not used
		var v = encoder.Serialize(uint64(r.Intn(50)))
		h.vals[cipher.SumSHA256(v)] = v
		h.logf("store unused %s", cipher.SumSHA256(v).Hex()[:6])
		if !h.put(up, v) {
			return false
		}
	}
	if r.Intn(4) == 0 && h.feed[f] {
		h.logf("leave it open: [%s]", names(ns))
		h.pend = append(h.pend, &pending{f, up, rt, ns, h.pins})
		h.k.Count("open_together", len(h.pend)-1)
		return true
	}
	if fail > 0 {
		h.k.Count("failed_saves", 1)
		var good = rt.Refs
		switch fail {
		case 1: // feed
			var x = *rt
			x.Pub, _, _ = cipher.GenerateDeterministicKeyPair([]byte("nobody"))
			err = h.c.Save(up, &x)
		case 2: // missing object
			var o = h.g.Set.Types[0]
			var sc, _ = h.reg.SchemaByName(o.Name)
			rt.Refs = append(append([]registry.Dynamic(nil), good...), registry.Dynamic{Hash: cipher.SumSHA256([]byte("missing")), Schema: sc.Reference()})
			err = h.c.Save(up, rt)
		case 3: // broken root
			var x = *rt
			if r.Intn(2) == 0 {
				x.Nonce = 0
			} else {
				x.Pub = cipher.PubKey{}
			}
			err = h.c.Save(up, &x)
		}
		h.logf("failing save, kind %d: %v", fail, err)
		if err == nil {
			h.bad("failure", "an impossible saving returns no error (kind %d)", fail)
			return false
		}
		rt.Refs = good
		if !h.feed[f] || r.Intn(2) == 0 {
			h.k.Count("given_up", 1)
			if err = up.Close(); err != nil {
				h.bad("give up", "Close: %v", err)
				return false
			}
			h.logf("give up")
			var after map[H]int
			if after, ok = h.counters(); !ok {
				return false
			}
			for x := range h.vals {
				if before[x] != after[x] {
					h.bad("give up", "counter of %s was %d, and it is %d after a failed saving", x.Hex()[:6], before[x], after[x])
					return false
				}
			}
			return true
		}
		h.k.Count("retried", 1)
		if !supplied && !h.supply(up, ns, before) {
			return false
		}
	}
	return h.finish(f, up, rt, ns)
}

func names(ns []*graphm.Node) string {
	var hs []string
	for _, n := range ns {
		hs = append(hs, n.Hash.Hex()[:6])
	}
	return strings.Join(hs, " ")
}

// take one of open Unpacks
func (h *hist) take() (p *pending) {
	var i = h.r.Intn(len(h.pend))
	p = h.pend[i]
	h.pend = append(h.pend[:i:i], h.pend[i+1:]...)
	h.pins = p.pins
	return
}

func (h *hist) giveUp() bool {
	var p = h.take()
	h.logf("give up open %d/%d [%s]", p.f, p.rt.Nonce, names(p.ns))
	h.k.Count("open_given_up", 1)
	if err := p.up.Close(); err != nil {
		h.bad("give up", "Close: %v", err)
		return false
	}
	return true
}

// save or close an Unpack opened some time ago
func (h *hist) resume() bool {
	if len(h.pend) == 0 {
		return true
	}
	if h.r.Intn(3) == 0 {
		return h.giveUp()
	}
	var p = h.take()
	h.logf("resume %d/%d", p.f, p.rt.Nonce)
	if !h.feed[p.f] {
		if err := h.c.AddFeed(h.pk[p.f]); err != nil {
			h.bad("feed", "%v", err)
			return false
		}
		h.feed[p.f] = true
	}
	// what it used without storing may be removed already
	var m, ok = h.counters()
	if !ok || !h.supply(p.up, p.ns, m) {
		return false
	}
	h.k.Count("resumed", 1)
	return h.finish(p.f, p.up, p.rt, p.ns)
}

func (h *hist) finish(f int, up *skyobject.Unpack, rt *registry.Root, ns []*graphm.Node) bool {
	var r = h.r
	var err error
	if err = h.c.Save(up, rt); err != nil {
		h.bad("save", "%v", err)
		return false
	}
	h.k.Count("saved", 1)
	var v = rt.Encode()
	if rt.Hash != cipher.SumSHA256(v) {
		h.bad("save", "wrong hash of the root")
		return false
	}
	h.vals[rt.Hash] = v
	h.vals[H(rt.Reg)] = h.reg.Encode()
	var c = *rt
	h.live = append(h.live, &root{rt.Pub, rt.Nonce, rt.Seq, rt.Hash, ns, &c})
	h.logf("saved %d/%d/%d %s with [%s]", f, rt.Nonce, rt.Seq, rt.Hash.Hex()[:6], names(ns))
	h.pins = make(map[H]bool) // released
	if r.Intn(3) == 0 {       // once more with the same Unpack
		var m, ok = h.counters()
		if !ok {
			return false
		}
		var x = *rt
		var ns []*graphm.Node
		x.Refs, ns = h.content(h.live[len(h.live)-1])
		h.logf("go on")
		if !h.check() || !h.supply(up, ns, m) {
			return false
		}
		return h.finish(f, up, &x, ns)
	}
	if r.Intn(2) == 0 {
		if r.Intn(2) == 0 {
			var v = encoder.Serialize(uint64(r.Intn(50)))
			h.vals[cipher.SumSHA256(v)] = v
			h.logf("store unused %s", cipher.SumSHA256(v).Hex()[:6])
			if !h.put(up, v) {
				return false
			}
		}
		h.logf("close unpack")
		if err = up.Close(); err != nil {
			h.bad("close unpack", "%v", err)
			return false
		}
	}
	return true
}

func (h *hist) drop(what string, f func(x *root) bool) {
	var left []*root
	for _, x := range h.live {
		if !f(x) {
			left = append(left, x)
		}
	}
	h.live = left
}

func (h *hist) delRoot() bool {
	if len(h.live) == 0 {
		return true
	}
	var x = h.live[h.r.Intn(len(h.live))]
	h.logf("delete root %d/%d %s", x.nonce, x.seq, x.hash.Hex()[:6])
	if err := h.c.DelRoot(x.pk, x.nonce, x.seq); err != nil {
		h.bad("delete", "DelRoot: %v", err)
		return false
	}
	h.drop("", func(y *root) bool { return x == y })
	h.k.Count("deleted_roots", 1)
	return true
}

func (h *hist) delHead() bool {
	if len(h.live) == 0 {
		return true
	}
	var x = h.live[h.r.Intn(len(h.live))]
	h.logf("delete head %d", x.nonce)
	if err := h.c.DelHead(x.pk, x.nonce); err != nil {
		h.bad("delete", "DelHead: %v", err)
		return false
	}
	h.drop("", func(y *root) bool { return x.pk == y.pk && x.nonce == y.nonce })
	h.k.Count("deleted_heads", 1)
	return true
}

func (h *hist) delFeed() bool {
	var f = h.r.Intn(len(h.pk))
	if !h.feed[f] {
		if err := h.c.DelFeed(h.pk[f]); !errors.Is(err, data.ErrNoSuchFeed) {
			h.bad("delete", "DelFeed of unknown feed: %v", err)
			return false
		}
		return true
	}
	h.logf("delete feed %d", f)
	if err := h.c.DelFeed(h.pk[f]); err != nil {
		h.bad("delete", "DelFeed: %v", err)
		return false
	}
	h.feed[f] = false
	h.drop("", func(y *root) bool { return y.pk == h.pk[f] })
	h.k.Count("deleted_feeds", 1)
	return true
}

func (h *hist) clean() bool {
	h.logf("clean")
	if err := cxoutils.RemoveObjects(h.c); err != nil {
		h.bad("clean", "%v", err)
		return false
	}
	h.k.Count("cleanings", 1)
	var need = h.reach()
	var pinned = make(map[H]bool)
	for _, p := range h.pend {
		for x := range p.pins {
			pinned[x] = true
		}
	}
	for x := range h.vals {
		if _, _, err := h.c.Get(x, 0); err == nil && !need[x] && !h.c.IsCached(x) && !pinned[x] {
			h.bad("clean", "object %s is not needed, but it remains after cleaning", x.Hex()[:6])
			return false
		}
	}
	return true
}
