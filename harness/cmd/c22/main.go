// C22: filling of roots
package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/cxstore"
	"verif/graphm"
	"verif/kit"
	"verif/regm"

	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/data/idxdb"
	"github.com/skycoin/cxo/skyobject"
	"github.com/skycoin/cxo/skyobject/registry"
	"github.com/skycoin/skycoin/src/cipher"
)

// H is hash
type H = cipher.SHA256

func main() {
	kit.Main("C22", kit.Opts{
		Rule: "random histories of a container that fills roots of random graphs, one by one and several at once (shared objects, the same root twice), from a source that answers at once, late, " +
			"in other order, twice, adds what nobody asked for, refuses, is silent, or serves broken registries and objects, with closing at random moments and deletions and cleanings between and meanwhile; " +
			"after every step the counters are compared with reachability from the full roots; finally everything is deleted; non-trivial with two full roots or more; distinct by the history",
		Need: []string{"filled", "failed", "closed", "closed_before", "refused", "silent", "poisoned", "too_large", "limits_reached", "concurrent", "same_root_twice", "shared_between_concurrent", "deleted_meanwhile", "cleaned",
			"requested", "not_requested_shared", "requested_again", "already_have", "feed_dropped", "objects_checked", "objects_dropped", "resent_after", "failed_by_deletion", "forks_refused"},
		MinCases: 60,
		Watchdog: 14 * time.Minute,
	}, run)
}

func run(k *kit.K) {
	var next int32 = -1
	var wg sync.WaitGroup
	for w := 0; w < 6; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := int(atomic.AddInt32(&next, 1)); i < k.N(1500, 24000) && k.Bad() < 15; i = int(atomic.AddInt32(&next, 1)) {
				k.Within("hang", fmt.Sprint("history ", i), time.Minute, func() {
					var h = &hist{k: k, r: k.Rng("h", i), n: i}
					h.run()
				})
			}
		}()
	}
	wg.Wait()
	quiet(k)
}

type root struct {
	f     int
	pk    cipher.PubKey
	nonce uint64
	seq   uint64
	hash  H
	val   []byte
	sig   cipher.Sig
	nodes []*graphm.Node
	reg   H
	bad   bool // can't be filled
}

func (x *root) String() string { return fmt.Sprintf("%d/%d/%d", x.f, x.nonce, x.seq) }

type hist struct {
	k *kit.K
	r *rand.Rand
	n int

	st   *cxstore.Store
	conf *skyobject.Config
	c    *skyobject.Container
	reg  *registry.Registry
	g    *graphm.G

	sk   []cipher.SecKey
	pk   []cipher.PubKey
	feed []bool

	seq  map[string]uint64
	live []*root
	last []*graphm.Node
	lrf  []registry.Dynamic
	vals map[H][]byte // everything
	had  map[H]bool   // was stored once
	log  []string

	broken bool // objects of roots were removed while others are filled
}

func (h *hist) logf(f string, a ...interface{}) { h.log = append(h.log, fmt.Sprintf(f, a...)) }

func (h *hist) cas() string {
	var s = h.g.String()
	if len(s) > 3000 {
		s = s[:3000] + "..."
	}
	return fmt.Sprintf("history %d\n%s\n%s", h.n, s, strings.Join(h.log, "\n"))
}

func (h *hist) bad(key, f string, a ...interface{}) { h.k.Violate(key, h.cas(), f, a...) }

func (h *hist) config() {
	var c, r = skyobject.NewConfig(), h.r
	switch r.Intn(4) {
	case 0:
		c.CacheMaxAmount = 0
	case 1:
		c.CacheMaxAmount = 1 + r.Intn(12)
	case 2:
		c.CacheMaxVolume = 500 + r.Intn(1000)
		c.CacheMaxItemSize = c.CacheMaxVolume / 6
	}
	if r.Intn(6) == 0 {
		c.MaxObjectSize = 300 + r.Intn(1500)
		if c.CacheMaxItemSize > c.MaxObjectSize {
			c.CacheMaxItemSize = c.MaxObjectSize
		}
	}
	c.CachePolicy = skyobject.CachePolicy(r.Intn(2))
	c.CacheRegistries = r.Intn(3)
	c.DB = data.NewDB(h.st, idxdb.NewMemeoryDB())
	h.conf = c
}

func (h *hist) run() {
	var r = h.r
	h.st = cxstore.New()
	h.config()
	h.vals = make(map[H][]byte)
	h.had = make(map[H]bool)
	h.seq = make(map[string]uint64)
	var s = regm.NewSet(r, regm.Cfg{Max: 4, Refs: r.Intn(5) > 0})
	h.reg = s.Registry(s.Order())
	for i := 0; i < 2; i++ {
		var pk, sk, _ = cipher.GenerateDeterministicKeyPair([]byte(fmt.Sprint("c22", h.n, i)))
		h.pk, h.sk, h.feed = append(h.pk, pk), append(h.sk, sk), append(h.feed, true)
	}
	h.g = graphm.New(r, s, h.reg, h.put)
	h.g.Max = 120
	h.g.NoEmpty = true
	h.g.Deg = func() int { return []int{2, 3, 4, 5, 8, 16, 50}[r.Intn(7)] }
	h.put(h.reg.Encode())
	var err error
	if h.c, err = skyobject.NewContainer(h.conf); err != nil {
		h.bad("open", "%v", err)
		return
	}
	for _, pk := range h.pk {
		h.c.AddFeed(pk)
	}
	var two bool
	for i, n := 0, 3+r.Intn(10); i < n && h.k.Bad() < 15; i++ {
		var ok bool
		if !h.k.Guard("panic", h.cas(), func() { ok = h.step() }) {
			return
		}
		if !ok || !h.check() {
			return
		}
		two = two || len(h.live) > 1
	}
	for len(h.live) > 0 {
		if !h.delRoot() || !h.check() {
			return
		}
	}
	if err := h.c.Close(); err != nil {
		h.bad("close", "%v", err)
	}
	for x, o := range h.st.Snapshot() {
		if o.RC != 0 {
			h.bad("leak", "object %s has counter %d after everything is deleted and closed", x.Hex()[:6], o.RC)
			break
		}
	}
	h.k.Case(two, strings.Join(h.log, "\n"))
}

func (h *hist) put(v []byte) H {
	var x = cipher.SumSHA256(v)
	h.vals[x] = v
	return x
}

// all goroutines of the fillers are gone
func quiet(k *kit.K) {
	var s string
	for i := 0; i < 50; i++ {
		if s = kit.Stacks(); !strings.Contains(s, "skyobject.(*Filler)") {
			return
		}
		time.Sleep(100 * time.Millisecond)
	}
	k.Violate("goroutines", "", "goroutines of fillers are alive after all fillings\n%s", s)
}

func (h *hist) step() bool {
	switch h.r.Intn(8) {
	case 0:
		if len(h.live) > 0 {
			return h.delRoot()
		}
	case 1:
		return h.clean()
	case 2, 3, 4:
		return h.several()
	case 5:
		return h.poisoned()
	}
	return h.fill([]*job{h.job(h.newRoot(nil, nil))}, nil)
}

func (h *hist) content() (refs []registry.Dynamic, ns []*graphm.Node) {
	var r = h.r
	for i, d := range h.lrf {
		if r.Intn(3) > 0 {
			refs, ns = append(refs, d), append(ns, h.last[i])
		}
	}
	for i := r.Intn(6); i > 0; i-- {
		h.g.Add()
	}
	for i := r.Intn(4); i > 0; i-- {
		var d, n = h.g.Dynamic(h.g.Max)
		refs, ns = append(refs, d), append(ns, n)
		if r.Intn(5) == 0 { // twice
			refs, ns = append(refs, d), append(ns, n)
		}
	}
	if len(refs) > 8 {
		refs, ns = refs[:8], ns[:8]
	}
	h.lrf, h.last = refs, ns
	return
}

func (h *hist) newRoot(refs []registry.Dynamic, ns []*graphm.Node) (x *root) {
	var r = h.r
	if ns == nil {
		refs, ns = h.content()
	}
	x = &root{f: r.Intn(2), nonce: uint64(1 + r.Intn(2)), nodes: ns, reg: H(h.reg.Reference())}
	x.pk = h.pk[x.f]
	h.sign(x, refs)
	return
}

func (h *hist) sign(x *root, refs []registry.Dynamic) {
	var key = fmt.Sprint(x.f, x.nonce)
	h.seq[key] += uint64(1 + h.r.Intn(3))
	x.seq = h.seq[key]
	if len(h.live) > 0 && !x.bad && h.r.Intn(6) == 0 { // the owner signs two roots with the same number
		var y = h.live[h.r.Intn(len(h.live))]
		x.f, x.pk, x.nonce, x.seq = y.f, y.pk, y.nonce, y.seq
		h.k.Count("forks", 1)
	}
	var rt = &registry.Root{Pub: x.pk, Nonce: x.nonce, Seq: x.seq, Time: int64(1000 + h.r.Intn(1000)), Reg: registry.RegistryRef(x.reg), Refs: refs}
	h.r.Read(rt.Prev[:])
	x.val = rt.Encode()
	x.hash = h.put(x.val)
	x.sig, _ = cipher.SignHash(x.hash, h.sk[x.f])
}

// a filling
type job struct {
	x      *root
	parall int
	delay  int // max, in 100 microseconds
	order  int // answer after so many requests are collected
	twice  bool
	extra  bool
	fail   int // refuse request of this number
	silent int // don't answer from this request
	close  int // close after so many requests
	before bool
	after  time.Duration // close then
	large  bool          // there is an object that is larger than allowed

	solo bool // no other fillings at the same time

	f    *skyobject.Filler
	rt   *registry.Root
	err  error
	asks map[H]int
}

func (j *job) String() string {
	return fmt.Sprintf("root %s parall %d delay %d order %d twice %v extra %v fail %d silent %d close %d before %v after %s", j.x, j.parall, j.delay, j.order, j.twice, j.extra, j.fail,
		j.silent, j.close, j.before, j.after)
}

// nothing prevents the filling
func (j *job) good() bool {
	return !j.x.bad && j.fail < 0 && j.silent < 0 && j.close < 0 && j.after == 0 && !j.before && !j.large
}

func (h *hist) job(x *root) (j *job) {
	var r = h.r
	j = &job{x: x, fail: -1, silent: -1, close: -1, asks: make(map[H]int)}
	j.parall = []int{0, 1, 1, 2, 3, 10}[r.Intn(6)]
	if r.Intn(2) == 0 {
		j.delay = 1 + r.Intn(8)
	}
	if r.Intn(3) == 0 {
		j.order = 1 + r.Intn(6)
	}
	j.twice = r.Intn(4) == 0
	j.extra = r.Intn(4) == 0
	switch r.Intn(9) {
	case 0:
		j.fail = r.Intn(10)
	case 1:
		j.silent = r.Intn(10)
		j.after = time.Duration(1+r.Intn(20)) * time.Millisecond
	case 2:
		j.close = r.Intn(10)
	case 3:
		j.after = time.Duration(1+r.Intn(3000)) * time.Microsecond
	case 4:
		if r.Intn(3) == 0 {
			j.before = true
		}
	}
	for y := range h.need(x) {
		if len(h.vals[y]) > h.conf.MaxObjectSize {
			j.large = true
		}
	}
	return
}

func (h *hist) need(x *root) (m map[H]bool) {
	m = graphm.Reach(x.nodes)
	m[x.hash], m[x.reg] = true, true
	return
}

var errRefused = errors.New("refused")

// source serves the requests
func (h *hist) source(j *job, rq <-chan H, stop <-chan struct{}, seed int64, busy *int32) {
	var r = rand.New(rand.NewSource(seed))
	var held []H
	var n int
	var wg sync.WaitGroup
	defer wg.Wait()
	var send = func(x H) {
		var d = 0
		if j.delay > 0 {
			d = r.Intn(j.delay)
		}
		var two = j.twice && r.Intn(2) == 0
		wg.Add(1)
		go func() {
			defer wg.Done()
			if d > 0 {
				time.Sleep(time.Duration(d) * 100 * time.Microsecond)
			}
			atomic.AddInt32(busy, -1)
			h.c.SetWanted(x, h.vals[x])
			if two {
				h.c.SetWanted(x, h.vals[x])
			}
		}()
	}
	for {
		var tc <-chan time.Time
		if len(held) > 0 {
			tc = time.After(2 * time.Millisecond)
		}
		select {
		case <-stop:
			return
		case <-tc:
			for _, x := range held {
				send(x)
			}
			held = nil
		case x := <-rq:
			j.asks[x]++
			if m := int(atomic.AddInt32(busy, 1)); j.solo && j.good() && j.parall > 0 && m > j.parall+1 {
				h.bad("limit", "%d objects are requested at the same time, the limit is %d: %s", m, j.parall, j)
			} else if j.parall > 1 && m >= j.parall {
				h.k.Count("limits_reached", 1)
			}
			h.k.Count("requested", 1)
			if n++; n-1 == j.close {
				go j.f.Close()
				j.f.Close()
			}
			if n-1 == j.fail {
				go j.f.Fail(errRefused)
				continue
			}
			if j.silent >= 0 && n-1 >= j.silent {
				continue
			}
			if h.vals[x] == nil {
				h.bad("foreign", "%s is requested, there is no such object", x.Hex()[:6])
				continue
			}
			if j.extra && r.Intn(2) == 0 {
				var y [7]byte
				r.Read(y[:])
				h.c.SetWanted(cipher.SumSHA256(y[:]), y[:])
			}
			if j.order > 0 {
				if held = append(held, x); len(held) > j.order {
					r.Shuffle(len(held), func(a, b int) { held[a], held[b] = held[b], held[a] })
					for _, x := range held {
						send(x)
					}
					held = nil
				}
				continue
			}
			send(x)
		}
	}
}

// fork is another root with the same number
func (h *hist) fork(x *root) bool {
	for _, y := range h.live {
		if y.f == x.f && y.nonce == x.nonce && y.seq == x.seq && y.hash != x.hash {
			return true
		}
	}
	return false
}

func (h *hist) full(x *root) bool {
	for _, y := range h.live {
		if y.hash == x.hash {
			return true
		}
	}
	return false
}

// fill runs the jobs at once with the function
func (h *hist) fill(js []*job, meanwhile func() bool) bool {
	var wg sync.WaitGroup
	var before = h.stored()
	var forks = make(map[*root]bool)
	for _, j := range js {
		forks[j.x] = h.fork(j.x)
		for _, o := range js {
			if o.x.f == j.x.f && o.x.nonce == j.x.nonce && o.x.seq == j.x.seq && o.x.hash != j.x.hash {
				forks[j.x] = true
			}
		}
	}
	for _, j := range js {
		j := j
		h.logf("fill %s", j)
		var rt, err = h.c.ReceivedRoot(j.x.pk, j.x.sig, j.x.val)
		if err != nil {
			h.bad("received", "a proper root is refused: %v", err)
			return false
		}
		if rt.IsFull != (h.full(j.x) || h.fork(j.x)) {
			h.bad("full", "root %s is full: %v", j.x, rt.IsFull)
			return false
		}
		rt.IsFull = false
		j.rt = rt
		j.solo = len(js) == 1
	}
	for _, j := range js {
		j := j
		var rq = make(chan H, h.r.Intn(3))
		j.f = h.c.Fill(j.rt, rq, j.parall)
		var stop, seed, busy = make(chan struct{}), h.r.Int63(), new(int32)
		var src sync.WaitGroup
		src.Add(1)
		go func() {
			defer src.Done()
			h.source(j, rq, stop, seed, busy)
		}()
		if j.before {
			j.f.Close()
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			h.k.Guard("panic", j.String(), func() { j.err = j.f.Run() })
			close(stop)
			j.f.Close()
			src.Wait()
		}()
		if j.after > 0 {
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(j.after)
				j.f.Close()
			}()
		}
	}
	var dropped bool
	h.broken = false
	if meanwhile != nil {
		if !meanwhile() {
			return false
		}
		dropped = true
	}
	wg.Wait()
	for _, j := range js {
		h.logf("  root %s: %v", j.x, j.err)
		var need = h.need(j.x)
		for y := range j.asks {
			switch {
			case !need[y]:
				h.bad("foreign", "%s is requested, the root %s does not need it", y.Hex()[:6], j.x)
				return false
			case before[y] && !dropped:
				h.bad("requested", "%s is requested, but it is in the database", y.Hex()[:6])
				return false
			}
			if h.had[y] {
				h.k.Count("requested_again", 1)
			}
		}
		if j.err != nil {
			h.k.Count("failed", 1)
			switch {
			case j.before:
				h.k.Count("closed_before", 1)
			case j.large:
				h.k.Count("too_large", 1)
			case j.x.bad:
				h.k.Count("poisoned", 1)
			case j.err == errRefused:
				h.k.Count("refused", 1)
			case j.silent >= 0:
				h.k.Count("silent", 1)
			case j.close >= 0 || j.after > 0:
				h.k.Count("closed", 1)
			}
			if j.rt.IsFull {
				h.bad("full", "filling of root %s failed (%v), but it is marked as full", j.x, j.err)
				return false
			}
			if h.broken {
				h.k.Count("failed_by_deletion", 1)
			} else if forks[j.x] || h.fork(j.x) {
				h.k.Count("forks_refused", 1)
			} else if j.good() && h.feed[j.x.f] {
				h.bad("failed", "filling of root %s failed: %v, but the source has answered everything", j.x, j.err)
				return false
			}
			continue
		}
		if h.fork(j.x) {
			h.bad("fork", "root %s is filled, but there is another one with the same number", j.x)
			return false
		}
		if j.x.bad || j.before || j.large {
			h.bad("full", "root %s is filled, but it can't be", j.x)
			return false
		}
		if !j.rt.IsFull {
			h.bad("full", "filling of root %s is successful, but it is not marked as full", j.x)
			return false
		}
		h.k.Count("filled", 1)
		for y := range need {
			if before[y] && y != j.x.reg {
				h.k.Count("not_requested_shared", 1)
				break
			}
		}
		if h.full(j.x) {
			h.k.Count("already_have", 1)
		} else if h.feed[j.x.f] {
			h.live = append(h.live, j.x)
		}
	}
	// what was not received is not wanted anymore
	var now = h.stored()
	for _, j := range js {
		for y := range h.need(j.x) {
			if !now[y] {
				h.c.SetWanted(y, h.vals[y])
				h.k.Count("resent_after", 1)
				if h.stored()[y] {
					h.bad("wanted", "object %s is wanted after the filling failed, and it is stored", y.Hex()[:6])
					return false
				}
			}
		}
	}
	for y := range now {
		h.had[y] = true
		if h.vals[y] == nil {
			h.bad("foreign", "an object that nobody wants is stored: %s", y.Hex()[:6])
			return false
		}
	}
	return true
}

func (h *hist) stored() (m map[H]bool) {
	m = make(map[H]bool)
	for x := range h.st.Snapshot() {
		m[x] = true
	}
	return
}

func (h *hist) several() bool {
	var r = h.r
	var js []*job
	var refs, ns = h.content()
	var same = r.Intn(4) == 0
	for i := 2 + r.Intn(3); i > 0; i-- {
		switch {
		case same && len(js) > 0:
			js = append(js, h.job(js[0].x))
			h.k.Count("same_root_twice", 1)
		case len(js) > 0 && r.Intn(2) == 0:
			js = append(js, h.job(h.newRoot(refs, ns))) // the same objects
			h.k.Count("shared_between_concurrent", 1)
		default:
			js = append(js, h.job(h.newRoot(nil, nil)))
		}
	}
	h.k.Count("concurrent", 1)
	if r.Intn(3) > 0 {
		return h.fill(js, nil)
	}
	return h.fill(js, func() bool {
		time.Sleep(time.Duration(r.Intn(1500)) * time.Microsecond)
		h.k.Count("deleted_meanwhile", 1)
		switch {
		case r.Intn(4) == 0:
			var f = r.Intn(2)
			h.logf("delete feed %d", f)
			if err := h.c.DelFeed(h.pk[f]); err != nil {
				h.bad("delfeed", "%v", err)
				return false
			}
			h.k.Count("feed_dropped", 1)
			h.drop(func(x *root) bool { return x.f == f })
			h.feed[f] = false
			return true
		case r.Intn(2) == 0: // what is filling can't be cleaned
			for i := r.Intn(20); i >= 0; i-- {
				h.clean()
				time.Sleep(100 * time.Microsecond)
			}
			return true
		case len(h.live) > 0:
			for i := r.Intn(3); i >= 0 && len(h.live) > 0; i-- {
				if !h.delRoot() {
					return false
				}
				if r.Intn(2) == 0 {
					h.clean()
					h.broken = true
				}
				time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
			}
			return true
		}
		return true
	})
}

func (h *hist) poisoned() bool {
	var r = h.r
	var refs, ns = h.content()
	refs, ns = append([]registry.Dynamic(nil), refs...), append([]*graphm.Node(nil), ns...)
	var x = &root{f: r.Intn(2), nonce: uint64(1 + r.Intn(2)), reg: H(h.reg.Reference()), bad: true}
	x.pk = h.pk[x.f]
	var junk = make([]byte, 1+r.Intn(30))
	r.Read(junk)
	var d registry.Dynamic
	var bad = &graphm.Node{Size: 1}
	switch r.Intn(4) {
	case 0:
		x.reg = h.put(junk)
	case 1:
		x.reg = H{}
	case 2: // unknown schema
		d.Hash = h.put(junk)
		r.Read(d.Schema[:])
	case 3: // without schema
		d.Hash = h.put(junk)
	}
	if d.Hash != (H{}) {
		bad.Hash = d.Hash
		var i = r.Intn(len(refs) + 1)
		refs = append(refs[:i:i], append([]registry.Dynamic{d}, refs[i:]...)...)
		ns = append(ns[:i:i], append([]*graphm.Node{bad}, ns[i:]...)...)
	}
	x.nodes = ns
	h.sign(x, refs)
	return h.fill([]*job{h.job(x)}, nil)
}

func (h *hist) drop(f func(x *root) bool) {
	var live []*root
	for _, x := range h.live {
		if !f(x) {
			live = append(live, x)
		}
	}
	h.live = live
}

func (h *hist) delRoot() bool {
	var y = h.live[h.r.Intn(len(h.live))]
	h.logf("delete root %s", y)
	if err := h.c.DelRoot(y.pk, y.nonce, y.seq); err != nil {
		h.bad("delroot", "%s: %v", y, err)
		return false
	}
	h.drop(func(x *root) bool { return x == y })
	return true
}

// delete unused objects from the database
func (h *hist) clean() bool {
	h.logf("clean")
	var old []H
	for x, o := range h.st.Snapshot() {
		if o.RC == 0 {
			old = append(old, x)
		}
	}
	for _, x := range old {
		if h.c.IsCached(x) {
			continue
		}
		h.st.DelUnused(x)
		h.k.Count("cleaned", 1)
	}
	return true
}

func (h *hist) check() bool {
	for f, ok := range h.feed {
		if !ok {
			// fillings that were added before the deletion are gone
			if err := h.c.AddFeed(h.pk[f]); err != nil {
				h.bad("addfeed", "%v", err)
				return false
			}
			h.feed[f] = true
		}
	}
	var ns []*graphm.Node
	for _, x := range h.live {
		ns = append(ns, x.nodes...)
	}
	var need = graphm.Reach(ns)
	for _, x := range h.live {
		need[x.hash], need[x.reg] = true, true
	}
	for x := range h.vals {
		var v, rc, err = h.c.Get(x, 0)
		h.k.Count("objects_checked", 1)
		switch {
		case err != nil && err != data.ErrNotFound:
			h.bad("get", "%s: %v", x.Hex()[:6], err)
			return false
		case err != nil && need[x]:
			h.bad("lost", "object %s is not stored, but a full root needs it", x.Hex()[:6])
			return false
		case err != nil:
		case !bytes.Equal(v, h.vals[x]):
			h.bad("value", "the value of %s is wrong", x.Hex()[:6])
			return false
		case need[x] && rc <= 0:
			h.bad("unheld", "object %s has counter %d, but a full root needs it", x.Hex()[:6], rc)
			return false
		case !need[x] && rc != 0:
			h.bad("leak", "object %s has counter %d, but no full root needs it", x.Hex()[:6], rc)
			return false
		case !need[x]:
			h.k.Count("objects_dropped", 1)
		}
	}
	// the index
	var n int
	for _, pk := range h.pk {
		var hs, err = h.c.Heads(pk)
		if err != nil {
			h.bad("index", "%v", err)
			return false
		}
		for _, nonce := range hs {
			h.c.DB().IdxDB().Tx(func(fs data.Feeds) error {
				var hs, _ = fs.Heads(pk)
				var rs, _ = hs.Roots(nonce)
				n += rs.Len()
				return nil
			})
		}
	}
	if n != len(h.live) {
		h.bad("index", "there are %d roots in the index, want %d", n, len(h.live))
		return false
	}
	for _, x := range h.live {
		if rt, err := h.c.Root(x.pk, x.nonce, x.seq); err != nil || rt.Hash != x.hash || rt.Sig != x.sig || !rt.IsFull {
			h.bad("index", "root %s is not in the index: %v", x, err)
			return false
		}
	}
	return true
}
