// C25: cleaning utilities
package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/kit"

	"github.com/skycoin/cxo/cxoutils"
	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/skyobject"
	"github.com/skycoin/cxo/skyobject/registry"
	"github.com/skycoin/skycoin/src/cipher"
)

// H is hash
type H = cipher.SHA256

func main() {
	kit.Main("C25", kit.Opts{
		Rule: "random histories: roots with shared objects saved to several heads of several feeds, gaps between seq numbers, heads and feeds without roots, objects nobody uses, then the utilities with random numbers to keep; " +
			"both databases, several caches; the content is compared before and after; and histories where savers, readers, deleters and several cleaners work at the same time; " +
			"non-trivial if roots and objects were removed and some roots remain; distinct by the history",
		Need: []string{"roots_removed", "roots_kept", "keep_zero", "keep_more", "gaps", "objects_removed", "objects_of_open_unpacks", "objects_kept_used", "empty_heads", "memory_db", "bolt_db", "late_uses",
			"concurrent_memory", "concurrent_bolt", "concurrent_saves", "concurrent_walks", "concurrent_cleanings", "concurrent_feeds_dropped"},
		MinCases: 60,
		Watchdog: 14 * time.Minute,
	}, run)
}

// A Leaf object
type Leaf struct{ S string }

// A Tree object
type Tree struct {
	Name string
	L    registry.Ref  `skyobject:"schema=c25.Leaf"`
	R    registry.Refs `skyobject:"schema=c25.Leaf"`
	D    registry.Dynamic
}

var reg = registry.NewRegistry(func(r *registry.Reg) {
	r.Register("c25.Leaf", Leaf{})
	r.Register("c25.Tree", Tree{})
})

func run(k *kit.K) {
	var next int32 = -1
	var wg sync.WaitGroup
	for w := 0; w < 6; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := int(atomic.AddInt32(&next, 1)); i < k.N(220, 4000) && k.Bad() < 15; i = int(atomic.AddInt32(&next, 1)) {
				k.Within("hang", fmt.Sprint("history ", i), 2*time.Minute, func() { (&hist{k: k, r: k.Rng("h", i), n: i}).run() })
			}
		}()
	}
	wg.Wait()
	for i := 0; i < k.N(24, 300) && k.Bad() < 15; i++ {
		k.Within("hang concurrent", fmt.Sprint("concurrent ", i), 2*time.Minute, func() { (&hist{k: k, r: k.Rng("c", i), n: i}).conc() })
	}
}

type key struct {
	f     int
	nonce uint64
}

type hist struct {
	k *kit.K
	r *rand.Rand
	n int

	c    *skyobject.Container
	dir  string
	sk   []cipher.SecKey
	pk   []cipher.PubKey
	live map[key][]uint64
	ups  []*skyobject.Unpack
	pins [][]byte // stored by open Unpacks
	log  []string
	bolt bool
}

func (h *hist) cas() string {
	return fmt.Sprintf("history %d bolt %v\n%s", h.n, h.bolt, strings.Join(h.log, "\n"))
}

func (h *hist) bad(key, f string, a ...interface{}) { h.k.Violate(key, h.cas(), f, a...) }

func (h *hist) open(feeds int) bool {
	var r = h.r
	var conf = skyobject.NewConfig()
	conf.Degree = registry.Degree(2 + r.Intn(5))
	switch r.Intn(3) {
	case 0:
		conf.CacheMaxAmount = 0
	case 1:
		conf.CacheMaxAmount = 1 + r.Intn(20)
	}
	conf.CacheRegistries = r.Intn(2)
	conf.InMemoryDB = r.Intn(3) > 0
	h.bolt = !conf.InMemoryDB
	if h.bolt {
		var err error
		if h.dir, err = os.MkdirTemp("", "c25"); err != nil {
			panic(err)
		}
		conf.DataDir = h.dir
		h.k.Count("bolt_db", 1)
	} else {
		h.k.Count("memory_db", 1)
	}
	var err error
	if h.c, err = skyobject.NewContainer(conf); err != nil {
		h.bad("open", "%v", err)
		return false
	}
	h.live = make(map[key][]uint64)
	for i := 0; i < feeds; i++ {
		var pk, sk, _ = cipher.GenerateDeterministicKeyPair([]byte(fmt.Sprint("c25", h.n, i)))
		h.pk, h.sk = append(h.pk, pk), append(h.sk, sk)
		h.c.AddFeed(pk)
	}
	return true
}

func (h *hist) close() {
	h.c.Close()
	if h.dir != "" {
		os.RemoveAll(h.dir)
	}
}

func save(c *skyobject.Container, r *rand.Rand, pk cipher.PubKey, sk cipher.SecKey, nonce uint64) (seq uint64, err error) {
	var up *skyobject.Unpack
	if up, err = c.Unpack(sk, reg); err != nil {
		return
	}
	var rt = &registry.Root{Pub: pk, Nonce: nonce, Reg: reg.Reference(), Time: time.Now().UnixNano()}
	for i := r.Intn(3); i >= 0; i-- {
		var t = Tree{Name: fmt.Sprint("tree", r.Intn(50))}
		if err = t.L.SetValue(up, &Leaf{fmt.Sprint("leaf", r.Intn(20))}); err != nil {
			return
		}
		for j := r.Intn(8); j > 0; j-- {
			if err = t.R.AppendValues(up, Leaf{fmt.Sprint("leaf", r.Intn(30))}); err != nil {
				return
			}
		}
		var d registry.Dynamic
		if d, err = dyn(up, &t); err != nil {
			return
		}
		rt.Refs = append(rt.Refs, d)
	}
	if err = c.Save(up, rt); err != nil {
		return
	}
	return rt.Seq, nil
}

func dyn(up *skyobject.Unpack, t *Tree) (d registry.Dynamic, err error) {
	var sch, _ = up.Registry().SchemaByName("c25.Tree")
	d.Schema = sch.Reference()
	err = d.SetValue(up, t)
	return
}

type obj struct {
	val []byte
	rc  uint32
}

func (h *hist) content() (m map[H]obj) {
	m = make(map[H]obj)
	h.c.DB().CXDS().Iterate(func(key H, rc uint32, val []byte) error {
		m[key] = obj{append([]byte(nil), val...), rc}
		return nil
	})
	return
}

func (h *hist) roots() (m map[key][]uint64, err error) {
	m = make(map[key][]uint64)
	for i, pk := range h.pk {
		err = h.c.DB().IdxDB().Tx(func(fs data.Feeds) error {
			var hs, err = fs.Heads(pk)
			if err == data.ErrNoSuchFeed {
				return nil
			}
			return hs.Iterate(func(nonce uint64) error {
				var rs, err = hs.Roots(nonce)
				if err != nil {
					return err
				}
				var k = key{i, nonce}
				m[k] = nil
				return rs.Ascend(func(r *data.Root) error {
					m[k] = append(m[k], r.Seq)
					return nil
				})
			})
		})
		if err != nil {
			return
		}
	}
	return
}

func (h *hist) run() {
	var r = h.r
	if !h.open(1 + r.Intn(3)) {
		return
	}
	defer h.close()
	var removed, kept, objs int
	for i, n := 0, 2+r.Intn(5); i < n && h.k.Bad() < 15; i++ {
		for j := 1 + r.Intn(14); j > 0; j-- {
			var f = r.Intn(len(h.pk))
			var kk = key{f, uint64(1 + r.Intn(3))}
			var seq, err = save(h.c, r, h.pk[f], h.sk[f], kk.nonce)
			if err != nil {
				h.bad("save", "%v", err)
				return
			}
			h.live[kk] = append(h.live[kk], seq)
		}
		for j := r.Intn(6); j > 0; j-- { // gaps
			for kk, ss := range h.live {
				if len(ss) == 0 {
					continue
				}
				var at = r.Intn(len(ss))
				if err := h.c.DelRoot(h.pk[kk.f], kk.nonce, ss[at]); err != nil {
					h.bad("delete", "%v", err)
					return
				}
				h.logf("del %v %d", kk, ss[at])
				h.live[kk] = append(append([]uint64(nil), ss[:at]...), ss[at+1:]...)
				if at > 0 && at < len(ss)-1 {
					h.k.Count("gaps", 1)
				}
				break
			}
		}
		if r.Intn(4) == 0 {
			var f = r.Intn(len(h.pk))
			var kk = key{f, 77}
			h.c.AddHead(h.pk[f], 77)
			if _, ok := h.live[kk]; !ok {
				h.live[kk] = nil
			}
			h.k.Count("empty_heads", 1)
		}
		for j := r.Intn(4); j > 0; j-- { // nobody uses
			var v = []byte(fmt.Sprint("unused", r.Intn(1000)))
			var x = cipher.SumSHA256(v)
			h.c.Set(x, v, 1)
			h.c.Inc(x, -1)
		}
		if r.Intn(3) == 0 { // not saved yet
			if up, err := h.c.Unpack(h.sk[0], reg); err == nil {
				for j := r.Intn(3); j >= 0; j-- {
					var v = []byte(fmt.Sprint("new", r.Intn(1000)))
					if err = up.Set(cipher.SumSHA256(v), v); err != nil {
						h.bad("open unpack", "%v", err)
					}
					h.pins = append(h.pins, v)
				}
				h.ups = append(h.ups, up)
			}
		}
		h.logf("live %v", h.live)
		var a, b, c = h.clean()
		if a < 0 {
			return
		}
		removed, kept, objs = removed+a, kept+b, objs+c
	}
	h.k.Case(removed > 0 && kept > 0 && objs > 0, strings.Join(h.log, "\n"))
}

func (h *hist) logf(f string, a ...interface{}) { h.log = append(h.log, fmt.Sprintf(f, a...)) }

func (h *hist) clean() (removed, kept, objs int) {
	var r = h.r
	if r.Intn(3) > 0 {
		var keep = r.Intn(8)
		if r.Intn(3) == 0 {
			keep = r.Intn(3)
		}
		h.logf("keep %d", keep)
		if keep == 0 {
			h.k.Count("keep_zero", 1)
		}
		if err := cxoutils.RemoveRootObjects(h.c, keep); err != nil {
			h.bad("roots", "RemoveRootObjects: %v", err)
			return -1, 0, 0
		}
		for kk, ss := range h.live {
			if len(ss) > keep {
				removed += len(ss) - keep
				h.live[kk] = ss[len(ss)-keep:]
			} else if len(ss) > 0 && len(ss) < keep {
				h.k.Count("keep_more", 1)
			}
			kept += len(h.live[kk])
		}
		h.k.Count("roots_removed", removed)
		h.k.Count("roots_kept", kept)
		var got, err = h.roots()
		if err != nil {
			h.bad("roots", "%v", err)
			return -1, 0, 0
		}
		for kk, ss := range h.live {
			var g = got[kk]
			sort.Slice(g, func(i, j int) bool { return g[i] < g[j] })
			if fmt.Sprint(g) != fmt.Sprint(ss) {
				h.bad("roots", "after keeping %d roots head %v has %v, not %v", keep, kk, g, ss)
				return -1, 0, 0
			}
			// the index follows
			var last, err = h.c.LastRootSeq(h.pk[kk.f], kk.nonce)
			if len(ss) == 0 && err == nil || len(ss) > 0 && (err != nil || last != ss[len(ss)-1]) {
				h.bad("roots", "last seq of %v is %d (%v), roots %v", kk, last, err, ss)
				return -1, 0, 0
			}
			delete(got, kk)
		}
		for kk, ss := range got {
			h.bad("roots", "unexpected head %v: %v", kk, ss)
			return -1, 0, 0
		}
	}
	if r.Intn(4) > 0 {
		h.logf("objects")
		var before = h.content()
		var want = make(map[H]bool)
		for x, o := range before {
			if o.rc > 0 {
				want[x] = true
			} else if h.c.IsCached(x) {
				want[x] = true
				h.k.Count("objects_of_open_unpacks", 1)
			}
		}
		if err := cxoutils.RemoveObjects(h.c); err != nil {
			h.bad("objects", "RemoveObjects: %v", err)
			return -1, 0, 0
		}
		var after = h.content()
		for _, v := range h.pins {
			if got, _, err := h.c.Get(cipher.SumSHA256(v), 0); err != nil || !bytes.Equal(got, v) {
				h.bad("open unpack", "%q, stored by an Unpack that is not saved yet, is removed: %v", v, err)
				return -1, 0, 0
			}
			h.k.Count("objects_of_open_unpacks", 1)
		}
		if r.Intn(2) == 0 {
			for _, up := range h.ups {
				if err := up.Close(); err != nil {
					h.bad("open unpack", "%v", err)
				}
			}
			h.ups, h.pins = nil, nil
		}
		for x := range want {
			var a, ok = after[x]
			if !ok || a.rc != before[x].rc || !bytes.Equal(a.val, before[x].val) {
				h.bad("objects", "object %s with counter %d is removed or changed (%v, %d)", x.Hex()[:6], before[x].rc, ok, a.rc)
				return -1, 0, 0
			}
		}
		for x, a := range after {
			if !want[x] {
				h.bad("objects", "object %s with counter %d is not removed", x.Hex()[:6], a.rc)
				return -1, 0, 0
			}
		}
		objs = len(before) - len(after)
		h.k.Count("objects_removed", objs)
		h.k.Count("objects_kept_used", len(after))
		if !h.walkAll() {
			return -1, 0, 0
		}
	}
	return
}

// all roots are complete
func (h *hist) walkAll() bool {
	for kk, ss := range h.live {
		for _, s := range ss {
			var rt, err = h.c.Root(h.pk[kk.f], kk.nonce, s)
			if err == nil {
				err = walk(h.c, rt)
			}
			if err != nil {
				h.bad("broken root", "root %v/%d after cleaning: %v", kk, s, err)
				return false
			}
			h.k.Count("late_uses", 1)
		}
	}
	return true
}

func walk(c *skyobject.Container, rt *registry.Root) (err error) {
	var p *skyobject.Pack
	if p, err = c.Pack(rt, nil); err != nil {
		return
	}
	return rt.Walk(p, func(x H, _ int) (bool, error) {
		if x == (H{}) {
			return false, nil
		}
		var v, err = p.Get(x)
		if err != nil {
			var _, rc, derr = c.DB().CXDS().Get(x, 0)
			err = fmt.Errorf("object %s: %v (database: %d %v, cached %v)", x.Hex()[:6], err, rc, derr, c.IsCached(x))
		}
		if err == nil && cipher.SumSHA256(v) != x {
			err = errors.New("wrong value of " + x.Hex()[:6])
		}
		return true, err
	})
}

// savers, readers, deleters and cleaners
func (h *hist) conc() {
	var feeds = 2 + h.r.Intn(2)
	if !h.open(feeds + 1) { // the last is added and dropped
		return
	}
	defer h.close()
	if h.bolt {
		h.k.Count("concurrent_bolt", 1)
	} else {
		h.k.Count("concurrent_memory", 1)
	}
	var keep = 1 + h.r.Intn(5)
	h.logf("keep %d", keep)
	var saves = 40
	if h.bolt {
		saves = 12
	}
	var wg, cl sync.WaitGroup
	var stop = make(chan struct{})
	var mx sync.Mutex
	var fail = func(key, f string, a ...interface{}) {
		mx.Lock()
		defer mx.Unlock()
		h.bad(key, f, a...)
	}
	for f := 0; f < feeds; f++ { // one saver of a feed
		wg.Add(1)
		var r = h.k.Rng("saver", h.n, f)
		go func(f int) {
			defer wg.Done()
			for i := 0; i < saves; i++ {
				var kk = key{f, uint64(1 + r.Intn(2))}
				var seq, err = save(h.c, r, h.pk[f], h.sk[f], kk.nonce)
				if err != nil {
					fail("concurrent save", "Save during cleaning: %v", err)
					return
				}
				mx.Lock()
				h.live[kk] = append(h.live[kk], seq)
				mx.Unlock()
				h.k.Count("concurrent_saves", 1)
				// it's the newest: no cleaner removes it
				var rt *registry.Root
				if rt, err = h.c.Root(h.pk[f], kk.nonce, seq); err != nil {
					err = fmt.Errorf("Root: %v", err)
				} else {
					err = walk(h.c, rt)
				}
				if err != nil {
					fail("concurrent walk", "the newest root %v/%d is broken: %v", kk, seq, err)
					return
				}
				h.k.Count("concurrent_walks", 1)
			}
		}(f)
	}
	for i := 0; i < 2; i++ { // cleaners
		cl.Add(2)
		go func() {
			defer cl.Done()
			for n := 0; ; n++ {
				select {
				case <-stop:
					return
				default:
				}
				if err := cxoutils.RemoveObjects(h.c); err != nil {
					fail("concurrent objects", "RemoveObjects: %v", err)
					return
				}
				h.k.Count("concurrent_cleanings", 1)
				time.Sleep(200 * time.Microsecond)
			}
		}()
		go func() {
			defer cl.Done()
			for n := 0; ; n++ {
				select {
				case <-stop:
					return
				default:
				}
				if err := cxoutils.RemoveRootObjects(h.c, keep); err != nil {
					fail("concurrent roots", "RemoveRootObjects: %v", err)
					return
				}
				time.Sleep(300 * time.Microsecond)
			}
		}()
	}
	cl.Add(1)
	go func() { // a feed is added and dropped
		defer cl.Done()
		var pk = h.pk[feeds]
		for {
			select {
			case <-stop:
				return
			default:
			}
			h.c.AddFeed(pk)
			h.c.AddHead(pk, 1)
			time.Sleep(100 * time.Microsecond)
			h.c.DelFeed(pk)
			h.k.Count("concurrent_feeds_dropped", 1)
		}
	}()
	cl.Add(1)
	go func() { // reads what is cached and what is not
		defer cl.Done()
		for {
			select {
			case <-stop:
				return
			default:
			}
			for i := 0; i < 30; i++ {
				h.c.Get(cipher.SumSHA256([]byte(fmt.Sprint("unused", i))), 0)
				var v = []byte(fmt.Sprint("unused", i))
				h.c.Set(cipher.SumSHA256(v), v, 1)
				h.c.Inc(cipher.SumSHA256(v), -1)
			}
			time.Sleep(100 * time.Microsecond)
		}
	}()
	wg.Wait()
	close(stop)
	cl.Wait()
	if h.k.Bad() > 0 {
		return
	}
	if err := cxoutils.RemoveRootObjects(h.c, keep); err != nil {
		h.bad("roots", "%v", err)
		return
	}
	h.c.DelFeed(h.pk[feeds])
	for kk, ss := range h.live {
		if len(ss) > keep {
			h.live[kk] = ss[len(ss)-keep:]
		}
	}
	var got, _ = h.roots()
	for kk, ss := range h.live {
		if fmt.Sprint(got[kk]) != fmt.Sprint(ss) {
			h.bad("roots", "after concurrent keeping %d roots head %v has %v, not %v", keep, kk, got[kk], ss)
			return
		}
	}
	if err := cxoutils.RemoveObjects(h.c); err != nil {
		h.bad("objects", "%v", err)
		return
	}
	for x, o := range h.content() {
		if o.rc == 0 && !h.c.IsCached(x) {
			h.bad("objects", "object %s is not removed", x.Hex()[:6])
			return
		}
	}
	h.walkAll()
}
