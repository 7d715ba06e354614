// C18: the cache is transparent
package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"time"

	"verif/cxstore"
	"verif/kit"

	"github.com/anishathalye/porcupine"
	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/data/idxdb"
	"github.com/skycoin/cxo/skyobject"
	"github.com/skycoin/skycoin/src/cipher"
)

// H is hash
type H = cipher.SHA256

func main() {
	kit.Main("C18", kit.Opts{
		Rule: "random histories of reads, writes, counter changes, subscriptions and fillers' confirmations and rejections over a few objects with every policy and size " +
			"of the cache are compared with a model without a cache, reply by reply, and with the store after closing; histories of concurrent calls are checked " +
			"for linearizability; non-trivial if the cache both served calls and wrote back; distinct by the history",
		Need: []string{"calls", "served_by_cache", "delivered", "wanted", "delivered_not_stored", "confirmed", "rejected", "too_large", "closed_and_compared", "evictions",
			"concurrent_calls", "linearizable_histories", "disabled_cache", "lru", "lfu", "closed_wanted", "closed_filling"},
		MinCases: 400,
	}, run)
}

func run(k *kit.K) {
	for i := 0; i < k.N(1200, 60000) && k.Bad() < 15; i++ {
		k.Within("hang", fmt.Sprint(i), time.Minute, func() { (&hist{k: k, r: k.Rng("h", i), n: i}).run() })
	}
	for i := 0; i < k.N(120, 4000) && k.Bad() < 15; i++ {
		k.Within("hang", fmt.Sprint("c", i), time.Minute, func() { conc(k, k.Rng("c", i), i) })
	}
}

func config(k *kit.K, r *rand.Rand) (c *skyobject.Config, d string) {
	c = skyobject.NewConfig()
	c.CacheRegistries = 0
	c.MaxObjectSize = 1024
	switch r.Intn(6) {
	case 0:
		if r.Intn(2) == 0 {
			c.CacheMaxAmount = 0
		} else {
			c.CacheMaxVolume, c.CacheMaxItemSize = 0, 0
		}
		k.Count("disabled_cache", 1)
	case 1, 2:
		c.CacheMaxAmount = 1 + r.Intn(5)
	case 3:
		c.CacheMaxVolume = 40 + r.Intn(400)
	case 4:
		c.CacheMaxAmount = 1 + r.Intn(8)
		c.CacheMaxVolume = 40 + r.Intn(400)
	}
	c.CacheCleaning = []float64{0.5, 0.6, 0.8, 0.9}[r.Intn(4)]
	if m := int(float64(c.CacheMaxVolume) * (1 - c.CacheCleaning)); c.CacheMaxItemSize > m {
		c.CacheMaxItemSize = m
	}
	if r.Intn(3) == 0 && c.CacheMaxItemSize > 50 {
		c.CacheMaxItemSize = 50
	}
	c.CachePolicy = skyobject.CachePolicy(r.Intn(2))
	k.Count(strings.ToLower(c.CachePolicy.String()), 1)
	if err := c.Validate(); err != nil {
		panic(err)
	}
	d = fmt.Sprintf("CacheMaxAmount:%d CacheMaxVolume:%d CacheMaxItemSize:%d CacheCleaning:%v %v", c.CacheMaxAmount, c.CacheMaxVolume,
		c.CacheMaxItemSize, c.CacheCleaning, c.CachePolicy)
	return
}

type obj struct {
	key   H
	val   []byte
	have  bool
	total int
	fc    int
	want  map[int]int // channel -> inc
}

func (o *obj) hard() int { return o.total - o.fc }

type hist struct {
	k *kit.K
	r *rand.Rand
	n int

	c  *skyobject.Container
	st *cxstore.Store
	os []*obj
	ch []chan skyobject.Object
	d  string

	log    []string
	served int
	evict  int
}

func (h *hist) bad(key, f string, a ...interface{}) {
	h.k.Violate(key, fmt.Sprintf("history %d, %s\n%s", h.n, h.d, strings.Join(h.log, "\n")), f, a...)
}

func value(r *rand.Rand) []byte {
	var n = 8 + r.Intn(60)
	switch r.Intn(12) {
	case 0:
		n = 1 + r.Intn(2)
	case 1:
		n = 1024
	case 2:
		n = 300 + r.Intn(500)
	case 3:
		n = 1025 + r.Intn(100)
	}
	var v = make([]byte, n)
	r.Read(v)
	return v
}

func (h *hist) run() {
	var r, k = h.r, h.k
	var conf *skyobject.Config
	conf, h.d = config(k, r)
	h.st = cxstore.New()
	for i := 2 + r.Intn(8); i > 0; i-- {
		var v = value(r)
		var o = &obj{key: cipher.SumSHA256(v), val: v, want: map[int]int{}}
		h.os = append(h.os, o)
		if r.Intn(3) == 0 && len(v) <= 1024 { // exists before
			h.st.Set(o.key, v, 3)
			h.st.Inc(o.key, -3)
			o.have = true
			o.total = r.Intn(4)
			h.st.Inc(o.key, o.total)
		}
	}
	for i := 0; i < 3; i++ {
		h.ch = append(h.ch, make(chan skyobject.Object, 100))
	}
	conf.DB = data.NewDB(h.st, idxdb.NewMemeoryDB())
	var err error
	if h.c, err = skyobject.NewContainer(conf); err != nil {
		h.bad("open", "%v", err)
		return
	}
	for i, n := 0, 10+r.Intn(80); i < n; i++ {
		var ok bool
		if !k.Guard("panic", h.d+" see the other one", func() { ok = h.step() }) {
			h.bad("panic", "panic of the last call")
			return
		}
		if !ok {
			return
		}
	}
	h.log = append(h.log, "Close")
	if !k.Guard("panic", h.d, func() { err = h.c.Close() }) || err != nil {
		h.bad("close", "Close: %v", err)
		return
	}
	h.closed()
	k.Count("served_by_cache", h.served)
	k.Count("evictions", h.evict)
	k.Case(h.served > 2, strings.Join(h.log, "\n"))
}

func (h *hist) closed() {
	h.k.Count("closed_and_compared", 1)
	var m = h.st.Snapshot()
	for i, o := range h.os {
		var s, ok = m[o.key]
		switch {
		case ok != o.have:
			h.bad("after close", "object %d: it is stored: %v, must be %v", i, ok, o.have)
			return
		case !ok:
			continue
		case !bytes.Equal(s.Val, o.val):
			h.bad("after close", "object %d: another value is stored", i)
			return
		case int(s.RC) != o.hard():
			h.bad("after close", "object %d: the stored counter is %d, but acknowledged %d (and %d of not completed fillings)", i, s.RC, o.hard(), o.fc)
			return
		}
		if o.fc > 0 {
			h.k.Count("closed_filling", 1)
		}
	}
	for _, o := range h.os {
		if len(o.want) > 0 {
			h.k.Count("closed_wanted", 1)
		}
	}
	if h.st.Late > 0 {
		h.bad("after close", "%d accesses to the closed store", h.st.Late)
	}
}

// number of messages and the last one
func (h *hist) recv(i int) (n int, last skyobject.Object) {
	for {
		select {
		case last = <-h.ch[i]:
			n++
		default:
			return
		}
	}
}

func (h *hist) step() bool {
	var r = h.r
	var i = r.Intn(len(h.os))
	var o = h.os[i]
	var large = len(o.val) > 1024
	var reads = h.st.Reads(o.key)
	var call string
	var cached []bool
	for _, o := range h.os {
		cached = append(cached, h.c.IsCached(o.key))
	}
	// what has to be sent
	var send = map[int]skyobject.Object{}
	var val []byte
	var rc, wrc int
	var err, werr error
	var wval []byte
	var inc int
	var dec = func() int { // any that keeps counters of fillers
		switch x := r.Intn(6); {
		case x == 0 && o.fc == 0:
			return -o.total - 1 // too much, it is zero then
		case x < 3 && o.hard() > 0:
			return -1 - r.Intn(o.hard())
		case x < 5:
			return 1 + r.Intn(3)
		}
		return 0
	}
	var add = func(n int) {
		if o.total += n; o.total < 0 {
			o.total = 0
		}
	}
	var stored = func(inc int) { // for wanters
		o.have, o.total = true, inc
		for _, w := range o.want {
			o.total += w
			o.fc += w
		}
		for c := range o.want {
			send[c] = skyobject.Object{Key: o.key, Val: o.val, RC: o.hard()}
		}
		o.want = map[int]int{}
		wrc = o.hard()
	}
	var tooLarge = func() {
		werr = &skyobject.ObjectIsTooLargeError{}
		for c := range o.want {
			send[c] = skyobject.Object{Key: o.key, Err: werr}
		}
		o.want = map[int]int{}
		h.k.Count("too_large", 1)
	}
	switch x := r.Intn(20); {
	case x < 5:
		inc = dec()
		call = fmt.Sprintf("Get(%d, %d)", i, inc)
		val, rc, err = h.c.Get(o.key, inc)
		if !o.have {
			werr = data.ErrNotFound
		} else {
			add(inc)
			wval, wrc = o.val, o.hard()
		}
	case x < 9:
		inc = 1 + r.Intn(3)
		call = fmt.Sprintf("Set(%d, %d)", i, inc)
		rc, err = h.c.Set(o.key, append([]byte(nil), o.val...), inc)
		switch {
		case o.have:
			add(inc)
			wrc = o.hard()
		case large:
			tooLarge()
		default:
			stored(inc)
		}
	case x < 12:
		inc = dec()
		call = fmt.Sprintf("Inc(%d, %d)", i, inc)
		rc, err = h.c.Inc(o.key, inc)
		if !o.have {
			werr = data.ErrNotFound
		} else {
			add(inc)
			wrc = o.hard()
		}
	case x < 15:
		inc = r.Intn(3)
		var c = r.Intn(len(h.ch))
		call = fmt.Sprintf("Want(%d, channel %d, %d)", i, c, inc)
		err = h.c.Want(o.key, h.ch[c], inc)
		if o.have {
			o.total += inc
			o.fc += inc
			send[c] = skyobject.Object{Key: o.key, Val: o.val, RC: o.hard()}
		} else {
			o.want[c] += inc
		}
		h.k.Count("wanted", 1)
	case x == 15:
		var c = r.Intn(len(h.ch))
		call = fmt.Sprintf("Unwant(%d, channel %d)", i, c)
		h.c.Unwant(o.key, h.ch[c])
		delete(o.want, c)
	case x == 16:
		call = fmt.Sprintf("SetWanted(%d)", i)
		var z int
		for _, w := range o.want {
			z += w
		}
		rc, err = h.c.SetWanted(o.key, append([]byte(nil), o.val...))
		switch {
		case len(o.want) == 0:
		case large:
			tooLarge()
		case z == 0: // nobody holds it, it's delivered without storing
			for c := range o.want {
				send[c] = skyobject.Object{Key: o.key, Val: o.val}
			}
			o.want = map[int]int{}
			h.k.Count("delivered_not_stored", 1)
		default:
			stored(0)
		}
	default:
		if o.fc == 0 {
			return true
		}
		inc = 1 + r.Intn(o.fc)
		if r.Intn(2) == 0 {
			call = fmt.Sprintf("Finc(%d, %d)", i, inc)
			err = h.c.Finc(o.key, inc)
			o.fc -= inc
			h.k.Count("confirmed", 1)
		} else {
			call = fmt.Sprintf("Finc(%d, %d)", i, -inc)
			err = h.c.Finc(o.key, -inc)
			o.fc -= inc
			o.total -= inc
			h.k.Count("rejected", 1)
		}
	}
	h.log = append(h.log, call)
	h.k.Count("calls", 1)
	if h.st.Reads(o.key) == reads && o.have {
		h.served++
	}
	for j, o := range h.os {
		if cached[j] && !h.c.IsCached(o.key) {
			h.evict++
		}
	}
	if _, ok := werr.(*skyobject.ObjectIsTooLargeError); ok {
		if _, ok = err.(*skyobject.ObjectIsTooLargeError); !ok {
			h.bad("reply", "%s returns error %v, want %T", call, err, werr)
			return false
		}
	} else if err != werr {
		h.bad("reply", "%s returns error %v, want %v", call, err, werr)
		return false
	}
	if err == nil && rc != wrc {
		h.bad("reply", "%s returns counter %d, want %d", call, rc, wrc)
		return false
	}
	if !bytes.Equal(val, wval) {
		h.bad("reply", "%s returns value %x, want %x", call, val, wval)
		return false
	}
	for c := range h.ch {
		var n, last = h.recv(c)
		var w, ok = send[c]
		h.k.Count("delivered", n)
		switch {
		case !ok && n > 0:
			h.bad("delivery", "%s: channel %d got an object it doesn't wait for", call, c)
		case ok && n != 1:
			h.bad("delivery", "%s: channel %d got %d objects, want one", call, c, n)
		case !ok:
			continue
		case last.Key != w.Key || !bytes.Equal(last.Val, w.Val) || (last.Err == nil) != (w.Err == nil) || last.Err == nil && last.RC != w.RC:
			h.bad("delivery", "%s: channel %d got counter %d, error %v, %d bytes; want %d, %v, %d bytes", call, c, last.RC, last.Err, len(last.Val),
				w.RC, w.Err, len(w.Val))
		default:
			continue
		}
		return false
	}
	return true
}

type op struct {
	what string
	key  int
	inc  int
}

type res struct {
	rc  int
	err bool
}

// concurrent calls
func conc(k *kit.K, r *rand.Rand, n int) {
	var conf, d = config(k, r)
	var st = cxstore.New()
	var ks []H
	var vs [][]byte
	var nk = 1 + r.Intn(4)
	for i := 0; i < nk; i++ {
		var v = make([]byte, 8+r.Intn(30))
		r.Read(v)
		vs, ks = append(vs, v), append(ks, cipher.SumSHA256(v))
	}
	conf.DB = data.NewDB(st, idxdb.NewMemeoryDB())
	var c, err = skyobject.NewContainer(conf)
	if err != nil {
		k.Violate("open", d, "%v", err)
		return
	}
	var (
		wg    sync.WaitGroup
		mx    sync.Mutex
		hist  []porcupine.Operation
		g     = 2 + r.Intn(4)
		count = 60 / g
		fill  = r.Intn(2) == 0
		wrong string
	)
	for i := 0; i < g; i++ {
		var r = k.Rng("g", n, i)
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for j := 0; j < count; j++ {
				var o = op{key: r.Intn(nk)}
				var e res
				var t = time.Now().UnixNano()
				var err error
				var dec = 2 // more than there is
				if fill {
					dec = 0 // or it would take references of fillers
				}
				switch x := r.Intn(10); {
				case x < 3:
					o.what, o.inc = "get", r.Intn(3+dec)-dec
					var v []byte
					if v, e.rc, err = c.Get(ks[o.key], o.inc); err == nil && !bytes.Equal(v, vs[o.key]) {
						mx.Lock()
						wrong = fmt.Sprintf("Get returned wrong value %x", v)
						mx.Unlock()
					}
				case x < 6:
					o.what, o.inc = "set", 1+r.Intn(2)
					e.rc, err = c.Set(ks[o.key], vs[o.key], o.inc)
				case x < 9:
					o.what, o.inc = "inc", r.Intn(3+dec)-dec
					e.rc, err = c.Inc(ks[o.key], o.inc)
				case !fill:
					continue
				default: // a filler that fails at last
					o.what = "fill"
					var ch = make(chan skyobject.Object, 1)
					c.Want(ks[o.key], ch, 1)
					c.SetWanted(ks[o.key], vs[o.key])
					c.Unwant(ks[o.key], ch)
					select {
					case <-ch:
					default:
						mx.Lock()
						wrong = "a filler got nothing"
						mx.Unlock()
					}
					err = c.Finc(ks[o.key], -1)
				}
				e.err = err != nil
				if e.err {
					e.rc = 0
				}
				var end = time.Now().UnixNano()
				mx.Lock()
				hist = append(hist, porcupine.Operation{ClientId: i, Input: o, Call: t, Output: e, Return: end})
				mx.Unlock()
			}
		}(i)
	}
	wg.Wait()
	k.Count("concurrent_calls", len(hist))
	var cas = fmt.Sprintf("concurrent history %d, %s", n, d)
	if wrong != "" {
		k.Violate("concurrent", cas, "%s", wrong)
		return
	}
	if err = c.Close(); err != nil {
		k.Violate("close", cas, "%v", err)
		return
	}
	// the final state is the last read
	var m = st.Snapshot()
	var t = time.Now().UnixNano()
	for i := range ks {
		var o, ok = m[ks[i]]
		hist = append(hist, porcupine.Operation{ClientId: g, Input: op{"get", i, 0}, Call: t + int64(2*i), Output: res{int(o.RC), !ok}, Return: t + int64(2*i) + 1})
	}
	switch porcupine.CheckOperationsTimeout(model(), hist, 20*time.Second) {
	case porcupine.Illegal:
		var ss []string
		for _, o := range hist {
			ss = append(ss, fmt.Sprintf("%d: %v -> %v [%d, %d]", o.ClientId, o.Input, o.Output, o.Call, o.Return))
		}
		k.Violate("linearizability", cas, "not linearizable:\n%s", strings.Join(ss, "\n"))
	case porcupine.Ok:
		k.Count("linearizable_histories", 1)
	}
	k.Case(len(hist) > 20, fmt.Sprint(hist[:10], d))
}

type state struct {
	have bool
	rc   int
}

func model() porcupine.Model {
	return porcupine.Model{
		Partition: func(h []porcupine.Operation) (out [][]porcupine.Operation) {
			var m = map[int][]porcupine.Operation{}
			for _, o := range h {
				m[o.Input.(op).key] = append(m[o.Input.(op).key], o)
			}
			for _, x := range m {
				out = append(out, x)
			}
			return
		},
		Init: func() interface{} { return state{} },
		Step: func(st, in, out interface{}) (bool, interface{}) {
			var s, o, e = st.(state), in.(op), out.(res)
			var next = s.rc + o.inc
			if next < 0 {
				next = 0
			}
			switch o.what {
			case "set":
				return !e.err && e.rc == next, state{true, next}
			case "fill":
				return !e.err, state{true, s.rc}
			}
			if !s.have {
				return e.err, s
			}
			return !e.err && e.rc == next, state{true, next}
		},
		Equal: func(a, b interface{}) bool { return a == b },
	}
}
