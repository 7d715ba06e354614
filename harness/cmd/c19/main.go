// C19: limits and policies of the cache
package main

import (
	"fmt"
	"math"
	"math/rand"
	"strings"
	"sync"
	"time"

	"verif/cxstore"
	"verif/kit"

	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/data/idxdb"
	"github.com/skycoin/cxo/skyobject"
	"github.com/skycoin/cxo/skyobject/registry"
	"github.com/skycoin/skycoin/src/cipher"
)

// H is hash
type H = cipher.SHA256

func main() {
	kit.Main("C19", kit.Opts{
		Rule: "random histories of accesses with random limits and policies, with and without objects that are being filled; after each call the reported amount and " +
			"volume, the list of cached objects and the accesses to the store are compared with a model; every eviction is checked against the order of the " +
			"policy (LRU histories take several seconds of real time) and the configured fullness; non-trivial if something was dropped; distinct by the history",
		Need: []string{"calls", "evictions", "evictions_lru", "evictions_lfu", "by_amount", "by_volume", "hits", "not_cached_large", "disabled", "fillings",
			"registries_hit", "registries_dropped", "registries_off", "evictions_with_filling", "lru_ordered_pairs", "lfu_ordered_pairs"},
		MinCases: 150,
	}, run)
}

func run(k *kit.K) {
	for i := 0; i < k.N(700, 30000) && k.Bad() < 15; i++ {
		k.Within("hang", fmt.Sprint(i), time.Minute, func() { (&hist{k: k, r: k.Rng("h", i), n: i}).run() })
	}
	for i := 0; i < k.N(60, 2000) && k.Bad() < 15; i++ {
		k.Within("hang", fmt.Sprint("r", i), time.Minute, func() { registries(k, k.Rng("r", i)) })
	}
	// LRU points are seconds
	for i := 0; i < k.N(1, 30) && k.Bad() < 15; i++ {
		var wg sync.WaitGroup
		for j := 0; j < 60; j++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				(&hist{k: k, r: k.Rng("lru", i, j), n: i*1000 + j, slow: true}).run()
			}()
		}
		k.Within("hang", "lru", 3*time.Minute, wg.Wait)
	}
}

type obj struct {
	key    H
	val    []byte
	have   bool
	fc     int
	wanted bool
	hits   int   // since it's cached
	lo, hi int64 // last access
}

type hist struct {
	k    *kit.K
	r    *rand.Rand
	n    int
	slow bool

	conf *skyobject.Config
	c    *skyobject.Container
	st   *cxstore.Store
	os   []*obj
	ch   chan skyobject.Object
	fill bool
	log  []string
}

func (h *hist) bad(key, f string, a ...interface{}) {
	var c = h.conf
	h.k.Violate(key, fmt.Sprintf("history %d, CacheMaxAmount:%d CacheMaxVolume:%d CacheMaxItemSize:%d CacheCleaning:%v %v\n%s", h.n, c.CacheMaxAmount, c.CacheMaxVolume,
		c.CacheMaxItemSize, c.CacheCleaning, c.CachePolicy, strings.Join(h.log, "\n")), f, a...)
}

func (h *hist) run() {
	var r, k = h.r, h.k
	var c = skyobject.NewConfig()
	h.conf = c
	switch r.Intn(8) {
	case 0:
		if r.Intn(2) == 0 {
			c.CacheMaxAmount = 0
		} else {
			c.CacheMaxVolume, c.CacheMaxItemSize = 0, 0
		}
		k.Count("disabled", 1)
	case 1, 2:
		c.CacheMaxAmount = 1 + r.Intn(20)
	case 3, 4:
		c.CacheMaxVolume = 100 + r.Intn(800)
	default:
		c.CacheMaxAmount = 1 + r.Intn(12)
		c.CacheMaxVolume = 100 + r.Intn(800)
	}
	c.CacheCleaning = []float64{0.5, 0.55, 0.6, 0.7, 0.8, 0.9}[r.Intn(6)]
	if m := int(float64(c.CacheMaxVolume) * (1 - c.CacheCleaning)); c.CacheMaxItemSize > m {
		c.CacheMaxItemSize = m
	}
	c.CachePolicy = skyobject.CachePolicy(r.Intn(2))
	if h.slow {
		c.CachePolicy = skyobject.LRU
	}
	if err := c.Validate(); err != nil {
		panic(err)
	}
	h.fill = r.Intn(3) == 0
	h.st = cxstore.New()
	for i := 4 + r.Intn(40); i > 0; i-- {
		var n = 10 + r.Intn(50)
		if r.Intn(6) == 0 {
			n = 60 + r.Intn(200)
		}
		var v = make([]byte, n)
		r.Read(v)
		h.os = append(h.os, &obj{key: cipher.SumSHA256(v), val: v})
	}
	h.ch = make(chan skyobject.Object, 10)
	c.DB = data.NewDB(h.st, idxdb.NewMemeoryDB())
	var err error
	if h.c, err = skyobject.NewContainer(c); err != nil {
		h.bad("open", "%v", err)
		return
	}
	defer h.c.Close()
	var ev int
	for i, n := 0, 30+r.Intn(150); i < n; i++ {
		var ok, e = h.step()
		if !ok {
			return
		}
		ev += e
		if h.slow && i%(n/5+1) == n/5 {
			h.log = append(h.log, "sleep")
			time.Sleep(1050 * time.Millisecond)
		}
	}
	// complete the fillings
	for i, o := range h.os {
		if o.wanted {
			h.c.Unwant(o.key, h.ch)
			o.wanted = false
			h.log = append(h.log, fmt.Sprint("Unwant ", i))
		}
		if o.fc > 0 {
			if err = h.c.Finc(o.key, o.fc*(1-2*r.Intn(2))); err != nil {
				h.bad("finc", "%v", err)
				return
			}
			h.log = append(h.log, fmt.Sprint("complete ", i))
			o.fc = 0
		}
	}
	if !h.limits() {
		return
	}
	k.Case(ev > 0, strings.Join(h.log, "\n"))
}

func (h *hist) cacheable(o *obj) bool {
	return h.conf.CacheMaxAmount > 0 && h.conf.CacheMaxVolume > 0 && len(o.val) <= h.conf.CacheMaxItemSize
}

// the reported state
func (h *hist) limits() bool {
	var s = h.c.Stat()
	var am, vol = int(s.CacheObjects.Amount), int(s.CacheObjects.Volume)
	if am > h.conf.CacheMaxAmount || vol > h.conf.CacheMaxVolume {
		h.bad("limits", "%d objects of %d bytes are cached", am, vol)
		return false
	}
	var have, vmin, vmax, free int
	for i, o := range h.os {
		var is = h.c.IsCached(o.key)
		var need = o.wanted || o.fc > 0
		if need {
			free++
			if !is {
				h.bad("filling", "object %d is being filled, but IsCached is false", i)
				return false
			}
			if o.have && h.cacheable(o) {
				vmax += len(o.val)
			}
			continue
		}
		if is {
			if !h.cacheable(o) {
				h.bad("large", "object %d of %d bytes is cached", i, len(o.val))
				return false
			}
			have++
			vmin += len(o.val)
			vmax += len(o.val)
		}
	}
	if am < have || am > have+free || vol < vmin || vol > vmax {
		h.bad("amount", "the reported amount and volume are %d and %d; cached: %d objects, %d to %d bytes, and %d objects are being filled", am, vol, have, vmin, vmax, free)
		return false
	}
	return true
}

func (h *hist) step() (ok bool, evicted int) {
	var r, c = h.r, h.conf
	var i = r.Intn(len(h.os))
	if r.Intn(2) == 0 {
		i = r.Intn(len(h.os)/3 + 1) // popular ones
	}
	var o = h.os[i]
	var was = make([]bool, len(h.os))
	var vol, amount int
	var regular = true // no objects being filled
	for j, o := range h.os {
		was[j] = h.c.IsCached(o.key)
		if o.wanted || o.fc > 0 {
			regular = false
		}
		if was[j] {
			vol += len(o.val)
			amount++
		}
	}
	var reads = h.st.Reads(o.key)
	var call string
	var err error
	var lo = time.Now().Unix()
	switch x := r.Intn(10); {
	case h.fill && x < 3 && !o.wanted:
		call = "want"
		err = h.c.Want(o.key, h.ch, 1)
		h.k.Count("fillings", 1)
		if o.have {
			<-h.ch
			o.fc++
		} else {
			o.wanted = true
		}
	case h.fill && o.wanted:
		call = "set wanted"
		_, err = h.c.SetWanted(o.key, o.val)
		<-h.ch
		o.wanted, o.have = false, true
		o.fc++
	case h.fill && x < 6 && o.fc > 0:
		call = "complete"
		var n = 1
		if r.Intn(2) == 0 {
			n = -1
		}
		err = h.c.Finc(o.key, n)
		o.fc--
	case !o.have:
		call = "set"
		_, err = h.c.Set(o.key, o.val, 1)
		o.have = true
	case x < 6:
		call = "get"
		_, _, err = h.c.Get(o.key, 0)
	case x < 8:
		call = "inc"
		_, err = h.c.Inc(o.key, 1)
	default:
		call = "set"
		_, err = h.c.Set(o.key, o.val, 1)
	}
	h.log = append(h.log, fmt.Sprintf("%s %d (%d)", call, i, len(o.val)))
	h.k.Count("calls", 1)
	if err != nil {
		h.bad("error", "%s: %v", call, err)
		return
	}
	if !h.limits() {
		return
	}
	var access = call == "get" || call == "inc" || call == "set"
	var hit = h.st.Reads(o.key) == reads
	if was[i] && o.fc == 0 && !o.wanted && access {
		if !hit {
			h.bad("hit", "object %d is cached, but the store is accessed", i)
			return
		}
		h.k.Count("hits", 1)
	}
	if hit && !was[i] && access {
		h.bad("hit", "object %d is not cached, but the store is not accessed", i)
		return
	}
	if access && !h.cacheable(o) && o.fc == 0 {
		h.k.Count("not_cached_large", 1)
	}
	var is = h.c.IsCached(o.key)
	if !is && access && h.cacheable(o) {
		// it may have no references
		if _, rc, _ := h.c.Get(o.key, 0); rc > 0 {
			h.bad("cached", "object %d is accessed, but not cached", i)
			return
		}
	}
	if !was[i] {
		o.hits = 0
	}
	o.hits++
	o.lo, o.hi = lo, time.Now().Unix()
	// evictions
	var ev, kept []int
	var after, avol int
	for j, p := range h.os {
		var now = h.c.IsCached(p.key)
		if now {
			after++
			avol += len(p.val)
		}
		switch {
		case j == i, !was[j], p.fc > 0, p.wanted:
		case now:
			kept = append(kept, j)
		default:
			ev = append(ev, j)
		}
	}
	if len(ev) == 0 {
		return true, 0
	}
	if call == "complete" && was[i] {
		// nothing is added
		if !h.fill || !h.cacheable(o) {
			h.bad("eviction", "%s evicts %v", call, ev)
			return
		}
	}
	h.k.Count("evictions", 1)
	h.k.Count("evictions_"+strings.ToLower(c.CachePolicy.String()), 1)
	for _, e := range ev {
		for _, p := range kept {
			var a, b = h.os[e], h.os[p]
			switch c.CachePolicy {
			case skyobject.LFU:
				if a.hits > b.hits && !h.fill {
					h.bad("policy", "object %d that was used %d times is dropped, but %d that was used %d times is kept", e, a.hits, p, b.hits)
					return
				}
				if a.hits < b.hits {
					h.k.Count("lfu_ordered_pairs", 1)
				}
			case skyobject.LRU:
				if a.lo > b.hi {
					h.bad("policy", "object %d that was used %d s later is dropped, but %d is kept", e, a.lo-b.hi, p)
					return
				}
				if a.hi < b.lo {
					h.k.Count("lru_ordered_pairs", 1)
				}
			}
		}
	}
	if !regular || o.fc > 0 || o.wanted {
		h.k.Count("evictions_with_filling", 1)
		return true, len(ev)
	}
	// fullness
	var size int
	for _, e := range ev {
		if len(h.os[e].val) > size {
			size = len(h.os[e].val)
		}
	}
	var byA, byV = amount+1 > c.CacheMaxAmount, vol+len(o.val) > c.CacheMaxVolume
	var la, lv = float64(c.CacheMaxAmount) * c.CacheCleaning, float64(c.CacheMaxVolume) * c.CacheCleaning
	switch {
	case !byA && !byV:
		h.bad("fullness", "%v are dropped, but there is a place: %d objects, %d bytes + %d bytes", ev, amount, vol, len(o.val))
		return
	case byA && float64(after) > math.Max(1, math.Ceil(la)):
		h.bad("fullness", "%d objects remain after cleaning, it must be down to %.1f", after, la)
		return
	case !byA && float64(avol) > lv+1:
		h.bad("fullness", "%d bytes remain after cleaning, it must be down to %.1f", avol, lv)
		return
	case byA && float64(after) < math.Floor(la)-1 && float64(avol+size) < lv-1:
		h.bad("fullness", "only %d objects of %d bytes remain after cleaning, it must be down to %.1f or %.1f bytes", after, avol, la, lv)
		return
	case !byA && float64(avol+size) < lv-1:
		h.bad("fullness", "only %d bytes remain after cleaning, it must be down to %.1f, the greatest dropped is %d", avol, lv, size)
		return
	}
	if byA {
		h.k.Count("by_amount", 1)
	}
	if byV {
		h.k.Count("by_volume", 1)
	}
	return true, len(ev)
}

// unpacked registries
func registries(k *kit.K, r *rand.Rand) {
	var c = skyobject.NewConfig()
	c.CacheRegistries = r.Intn(5)
	c.CachePolicy = skyobject.CachePolicy(r.Intn(2))
	c.CacheMaxAmount = 0 // to see every access
	var st = cxstore.New()
	c.DB = data.NewDB(st, idxdb.NewMemeoryDB())
	var cn, err = skyobject.NewContainer(c)
	if err != nil {
		k.Violate("open", "", "%v", err)
		return
	}
	defer cn.Close()
	type t struct{ A uint64 }
	var rs []registry.RegistryRef
	for i := 0; i < 8; i++ {
		var reg = registry.NewRegistry(func(x *registry.Reg) { x.Register(fmt.Sprint("t.x", i), t{}) })
		st.Set(H(reg.Reference()), reg.Encode(), 1)
		rs = append(rs, reg.Reference())
		if r.Intn(4) == 0 {
			cn.AddRegistryToCache(reg)
		}
	}
	var log []string
	var cas = func() string {
		return fmt.Sprintf("CacheRegistries: %d: %s", c.CacheRegistries, strings.Join(log, " "))
	}
	for i := 0; i < 60; i++ {
		var x = r.Intn(len(rs))
		var n = st.Reads(H(rs[x]))
		log = append(log, fmt.Sprint(x))
		var reg, err = cn.Registry(rs[x])
		if err != nil || reg.Reference() != rs[x] {
			k.Violate("registry", cas(), "error %v or another registry", err)
			return
		}
		var hit = st.Reads(H(rs[x])) == n
		if hit {
			k.Count("registries_hit", 1)
		}
		if c.CacheRegistries == 0 {
			k.Count("registries_off", 1)
			if hit {
				k.Violate("registries", cas(), "registries are not cached, but a registry is got without reading the store")
				return
			}
			continue
		}
		// the same again
		n = st.Reads(H(rs[x]))
		if reg2, err := cn.Registry(rs[x]); err != nil || reg2 != reg || st.Reads(H(rs[x])) != n {
			k.Violate("registries", cas(), "the registry is not cached (%v)", err)
			return
		}
		// look at all, it is not repeatable
		if i%10 == 9 {
			var hits int
			for _, x := range rs {
				n = st.Reads(H(x))
				cn.Registry(x)
				if st.Reads(H(x)) == n {
					hits++
				} else {
					k.Count("registries_dropped", 1)
				}
			}
			if hits > c.CacheRegistries {
				k.Violate("registries", cas(), "%d registries are cached", hits)
				return
			}
			log = append(log, "all")
		}
	}
	k.Case(true, cas())
}
