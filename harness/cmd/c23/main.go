// C23: crash of a container
package main

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/graphm"
	"verif/kit"
	"verif/regm"

	"github.com/skycoin/cxo/cxoutils"
	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/data/cxds"
	"github.com/skycoin/cxo/skyobject"
	"github.com/skycoin/cxo/skyobject/registry"
	"github.com/skycoin/skycoin/src/cipher"
)

// H is hash
type H = cipher.SHA256

var tmp string

func main() {
	kit.Main("C23", kit.Opts{
		Rule: "random histories of a container on disk: roots that share objects are saved, filled (from a source that stops at random moments too), deleted, feeds are deleted and unused objects are cleaned, " +
			"one by one and at once, with Unpacks left open; the process dies at random moments, before or after any transaction (the files are copied there), in the middle of recovery and of closing too; " +
			"the container is opened on the copy: an object is lost from the copy sometimes; acknowledged roots are there and complete, unacknowledged ones are complete or absent, counters are compared with reachability from the roots; " +
			"then the history goes on there, interrupted roots are filled again, finally everything is deleted; non-trivial with a crash in the middle of an operation; distinct by the history and the moment",
		Need: []string{"crashes", "crashes_filling", "crashes_saving", "crashes_deleting", "crashes_cleaning", "crashes_recovering", "crashes_closing", "crashes_concurrent", "crashes_open_unpack", "second_crashes",
			"clean_restarts", "closed_open_unpack", "damaged", "broken_roots", "saved", "filled", "filled_after_crash", "stopped_fillings", "deleted", "cleaned", "pending_kept", "pending_lost", "objects_checked", "through_path"},
		MinCases: 300,
		Watchdog: 14 * time.Minute,
	}, run)
}

func run(k *kit.K) {
	var base string
	if s, err := os.Stat("/dev/shm"); err == nil && s.IsDir() {
		base = "/dev/shm"
	}
	var err error
	if tmp, err = ioutil.TempDir(base, "c23"); err != nil {
		if tmp, err = ioutil.TempDir("", "c23"); err != nil {
			panic(err)
		}
	}
	defer os.RemoveAll(tmp)
	var next int32 = -1
	var wg sync.WaitGroup
	for w := 0; w < 7; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := int(atomic.AddInt32(&next, 1)); i < k.N(3000, 100000) && k.Bad() < 15; i = int(atomic.AddInt32(&next, 1)) {
				k.Within("hang", fmt.Sprint("history ", i), 3*time.Minute, func() { history(k, k.Rng("h", i), i) })
			}
		}()
	}
	wg.Wait()
}

var ids int32

type root struct {
	id    int32
	f     int
	pk    cipher.PubKey
	nonce uint64
	seq   uint64
	hash  H // blank: is not known until it is saved
	val   []byte
	sig   cipher.Sig
	refs  []registry.Dynamic
	nodes []*graphm.Node
}

func (x *root) String() string {
	return fmt.Sprintf("%d/%d/%d %s", x.f, x.nonce, x.seq, x.hash.Hex()[:6])
}

// all what histories of one tree of crashes share
type world struct {
	k    *kit.K
	n    int
	reg  *registry.Registry
	g    *graphm.G
	sk   []cipher.SecKey
	pk   []cipher.PubKey
	vals map[H][]byte // everything
	seq  map[string]uint64
}

type hist struct {
	*world
	r *rand.Rand
	c *skyobject.Container
	g *gate

	mx    sync.Mutex // used by copying
	live  []*root
	feed  []bool
	start map[*root]bool // savings and fillings in progress
	del   map[*root]bool // deletions in progress
	doing map[string]int
	log   []string

	taken  map[*root]bool
	broken H       // lost object
	lost   []*root // interrupted
	open   []*skyobject.Unpack
	depth  int
	want   int // copies to do
	odds   int // one of so many
	marks  []*copied

	last []*graphm.Node
	lrf  []registry.Dynamic
}

// a moment of death
type copied struct {
	dir    string
	live   []*root
	feed   []bool
	start  map[*root]bool
	del    map[*root]bool
	log    []string
	at     string
	middle bool
	broken H
}

func (h *hist) logf(f string, a ...interface{}) {
	h.mx.Lock()
	h.log = append(h.log, fmt.Sprintf(f, a...))
	h.mx.Unlock()
}

func (h *hist) cas() string {
	h.mx.Lock()
	defer h.mx.Unlock()
	return fmt.Sprintf("history %d\n%s", h.n, strings.Join(h.log, "\n"))
}

func (h *hist) bad(key, f string, a ...interface{}) bool {
	h.k.Violate(key, h.cas(), f, a...)
	return false
}

// begin and end of an operation
func (h *hist) begin(what string, start *root, del []*root) (end func(f func())) {
	h.mx.Lock()
	defer h.mx.Unlock()
	h.doing[what]++
	if start != nil {
		h.start[start] = true
	}
	for _, x := range del {
		h.del[x] = true
	}
	return func(f func()) {
		h.mx.Lock()
		defer h.mx.Unlock()
		h.doing[what]--
		delete(h.start, start)
		for _, x := range del {
			delete(h.del, x)
		}
		if f != nil {
			f()
		}
	}
}

var dirs int32

func newDir() string {
	var d = filepath.Join(tmp, fmt.Sprint(atomic.AddInt32(&dirs, 1)))
	if err := os.Mkdir(d, 0700); err != nil {
		panic(err)
	}
	return d
}

// the process could die here
func (h *hist) hook(r *rand.Rand) func(string) {
	return func(op string) {
		h.mx.Lock()
		defer h.mx.Unlock()
		if h.want <= 0 || r.Intn(h.odds) > 0 {
			return
		}
		h.want--
		var c = &copied{dir: newDir(), live: append([]*root(nil), h.live...), feed: append([]bool(nil), h.feed...), log: append([]string(nil), h.log...),
			start: make(map[*root]bool), del: make(map[*root]bool), at: op, broken: h.broken}
		for x := range h.start {
			c.start[x] = true
		}
		for x := range h.del {
			c.del[x] = true
		}
		var n int
		for what, m := range h.doing {
			if m > 0 {
				n += m
				h.k.Count("crashes_"+what, 1)
				c.at += " " + what
			}
		}
		if n > 1 {
			h.k.Count("crashes_concurrent", 1)
		}
		if len(h.open) > 0 {
			h.k.Count("crashes_open_unpack", 1)
		}
		c.middle = n > 0
		h.k.Count("crashes", 1)
		c.log = append(c.log, "dies "+c.at)
		copyFiles(h.g.dir, c.dir)
		h.marks = append(h.marks, c)
	}
}

func history(k *kit.K, r *rand.Rand, n int) {
	var w = &world{k: k, n: n, vals: make(map[H][]byte), seq: make(map[string]uint64)}
	var s = regm.NewSet(r, regm.Cfg{Max: 4, Refs: r.Intn(5) > 0})
	w.reg = s.Registry(s.Order())
	for i := 0; i < 2; i++ {
		var pk, sk, _ = cipher.GenerateDeterministicKeyPair([]byte(fmt.Sprint("c23", n, i)))
		w.pk, w.sk = append(w.pk, pk), append(w.sk, sk)
	}
	w.g = graphm.New(r, s, w.reg, w.put)
	w.g.Max = 100
	w.g.NoEmpty = true
	w.g.Deg = func() int { return []int{2, 3, 4, 5, 8, 16, 50}[r.Intn(7)] }
	w.put(w.reg.Encode())
	var h = &hist{world: w, r: r, g: &gate{dir: newDir()}, feed: make([]bool, 2)}
	h.life()
}

func (w *world) put(v []byte) H {
	var x = cipher.SumSHA256(v)
	w.vals[x] = v
	return x
}

func (h *hist) openContainer() bool {
	var r = h.r
	var c = skyobject.NewConfig()
	switch r.Intn(4) {
	case 0:
		c.CacheMaxAmount = 0
	case 1:
		c.CacheMaxAmount = 1 + r.Intn(12)
	case 2:
		c.CacheMaxVolume = 500 + r.Intn(1000)
		c.CacheMaxItemSize = c.CacheMaxVolume / 6
	}
	c.CachePolicy = skyobject.CachePolicy(r.Intn(2))
	c.CacheRegistries = r.Intn(3)
	c.CheckSizes = r.Intn(4) == 0
	var err error
	var end = h.begin("recovering", nil, nil)
	h.k.Guard("panic open", h.cas(), func() {
		if r.Intn(4) == 0 {
			var to = func(a, b string) { os.Rename(filepath.Join(h.g.dir, a), filepath.Join(h.g.dir, b)) }
			// the same by a path
			c.DBPath = filepath.Join(h.g.dir, "x")
			to("cxds", "x.cxds")
			to("idx", "x.idx")
			var o *skyobject.Container
			if o, err = skyobject.NewContainer(c); err != nil {
				err = fmt.Errorf("by path: %v", err)
				return
			}
			if err = o.Close(); err != nil {
				return
			}
			to("x.cxds", "cxds")
			to("x.idx", "idx")
			h.k.Count("through_path", 1)
		}
		if c.DB, err = h.g.open(); err == nil {
			h.c, err = skyobject.NewContainer(c)
		}
	})
	end(nil)
	if err != nil || h.c == nil {
		return h.bad("open", "the container can't be opened: %v", err)
	}
	return true
}

// life of a process
func (h *hist) life() {
	if h.doing = make(map[string]int); h.start == nil {
		h.start, h.del = make(map[*root]bool), make(map[*root]bool)
	}
	var r = h.r
	if h.depth < 2 && (h.depth == 0 || r.Intn(3) == 0) {
		h.want = 1 + r.Intn(4)
		h.odds = []int{4, 20, 60, 150}[r.Intn(4)]
	}
	h.g.set(h.hook(rand.New(rand.NewSource(r.Int63()))))
	defer func() {
		os.RemoveAll(h.g.dir)
		for _, c := range h.marks {
			if h.k.Bad() < 15 {
				h.after(c)
			}
			os.RemoveAll(c.dir)
		}
	}()
	if !h.openContainer() {
		return
	}
	if h.depth > 0 && !h.recovered() {
		return
	}
	for f := range h.feed {
		h.addFeed(f)
	}
	for i, n := 0, 2+r.Intn(8); i < n; i++ {
		var ok bool
		if !h.k.Guard("panic", h.cas(), func() { ok = h.step() }) || !ok || !h.check() {
			return
		}
	}
	if r.Intn(3) == 0 && !h.restart() {
		return
	}
	for len(h.live) > 0 {
		if !h.delRoot() || !h.check() {
			return
		}
	}
	for _, up := range h.open {
		up.Close()
	}
	if !h.check() || !h.close() {
		return
	}
	var cx, err = cxds.NewDriveCXDS(filepath.Join(h.g.dir, "cxds"))
	if err != nil {
		h.bad("open", "objects: %v", err)
		return
	}
	defer cx.Close()
	cx.Iterate(func(x H, rc uint32, v []byte) error {
		if rc != 0 {
			h.bad("leak", "object %s has counter %d after everything is deleted and closed", x.Hex()[:6], rc)
			return data.ErrStopIteration
		}
		return nil
	})
	if h.depth == 0 {
		h.k.Case(false, "")
	}
}

func (h *hist) close() bool {
	h.logf("close")
	var end = h.begin("closing", nil, nil)
	var err = h.c.Close()
	end(nil)
	if err != nil {
		return h.bad("close", "%v", err)
	}
	h.open = nil
	return true
}

func (h *hist) restart() bool {
	if len(h.open) > 0 && h.r.Intn(2) == 0 {
		h.k.Count("closed_open_unpack", 1)
	} else {
		for _, up := range h.open {
			up.Close()
		}
	}
	h.k.Count("clean_restarts", 1)
	return h.close() && h.openContainer() && h.check()
}

// a life after the death
func (h *hist) after(c *copied) {
	var n = &hist{world: h.world, r: h.r, g: &gate{dir: c.dir}, feed: c.feed, depth: h.depth + 1, live: c.live, log: c.log}
	if n.depth > 1 {
		h.k.Count("second_crashes", 1)
	}
	n.start, n.del = c.start, c.del // until it is known
	if n.broken = c.broken; n.broken == (H{}) && h.r.Intn(8) == 0 && !n.damage() {
		return
	}
	n.life()
	h.k.Case(c.middle, strings.Join(c.log, "\n"))
}

// an object is lost (older versions lost them this way), roots that need it are not complete
func (h *hist) damage() bool {
	var cx, err = cxds.NewDriveCXDS(filepath.Join(h.g.dir, "cxds"))
	if err != nil {
		return h.bad("open", "objects: %v", err)
	}
	defer cx.Close()
	var all, need []H
	var reach = make(map[H]bool)
	for _, x := range h.live {
		for y := range h.needs(x) {
			reach[y] = true
		}
	}
	cx.Iterate(func(x H, rc uint32, v []byte) error {
		if all = append(all, x); reach[x] {
			need = append(need, x)
		}
		return nil
	})
	if len(need) == 0 {
		return true
	}
	var y = need[h.r.Intn(len(need))]
	if err = cx.Del(y); err != nil {
		return h.bad("del", "%v", err)
	}
	h.log = append(h.log, "object "+y.Hex()[:6]+" is lost")
	h.k.Count("damaged", 1)
	h.broken = y
	return true
}

func (h *hist) hurt(x *root) bool { return h.broken != (H{}) && h.needs(x)[h.broken] }

func (h *hist) needs(x *root) (m map[H]bool) {
	m = graphm.Reach(x.nodes)
	m[x.hash], m[H(h.reg.Reference())] = true, true
	return
}

type listed struct {
	f     int
	nonce uint64
	dr    data.Root
}

func (h *hist) list() (ls []listed, ok bool) {
	var err = h.c.DB().IdxDB().Tx(func(fs data.Feeds) error {
		for f, pk := range h.pk {
			var hs, err = fs.Heads(pk)
			if err == data.ErrNoSuchFeed {
				continue
			} else if err != nil {
				return err
			}
			err = hs.Iterate(func(nonce uint64) error {
				var rs, err = hs.Roots(nonce)
				if err != nil {
					return err
				}
				return rs.Ascend(func(dr *data.Root) error {
					ls = append(ls, listed{f, nonce, *dr})
					return nil
				})
			})
			if err != nil {
				return err
			}
		}
		return nil
	})
	if err != nil {
		return nil, h.bad("index", "the index can't be read: %v", err)
	}
	return ls, true
}

// what the index has: what was acknowledged, and perhaps what was in progress
func (h *hist) recovered() bool {
	var ls, ok = h.list()
	if !ok {
		return false
	}
	var acked = make(map[string]*root)
	var key = func(f int, nonce, seq uint64, hash H) string {
		return fmt.Sprint(f, "/", nonce, "/", seq, "/", hash.Hex())
	}
	for _, x := range h.live {
		acked[key(x.f, x.nonce, x.seq, x.hash)] = x
	}
	var maybe []*root
	for x := range h.start {
		maybe = append(maybe, x)
	}
	for x := range h.del {
		maybe = append(maybe, x)
	}
	sort.Slice(maybe, func(i, j int) bool { return maybe[i].id < maybe[j].id })
	var in = make(map[*root]bool)
	for _, x := range maybe {
		in[x] = true
	}
	var live []*root
	var used = make(map[*root]bool)
	for _, l := range ls {
		var x = acked[key(l.f, l.nonce, l.dr.Seq, l.dr.Hash)]
		for _, y := range maybe {
			if x != nil || used[y] || y.f != l.f || y.nonce != l.nonce {
				continue
			}
			if y.hash == l.dr.Hash {
				x = y
			} else if y.hash == (H{}) { // it was being saved
				var rt, err = h.c.Root(h.pk[l.f], l.nonce, l.dr.Seq)
				if err == nil && fmt.Sprint(rt.Refs) == fmt.Sprint(y.refs) {
					var z = *y
					z.seq, z.hash, z.sig, z.val = rt.Seq, rt.Hash, l.dr.Sig, rt.Encode()
					h.put(z.val)
					used[y] = true
					x = &z
				}
			}
		}
		if x == nil {
			return h.bad("unknown", "root %d/%d/%d %s is listed, but it was not saved, or it was deleted", l.f, l.nonce, l.dr.Seq, l.dr.Hash.Hex()[:6])
		}
		if l.dr.Sig != x.sig {
			return h.bad("differs", "root %s is listed with other signature", x)
		}
		if h.hurt(x) {
			return h.bad("incomplete", "root %s is listed, but it needs an object that is lost", x)
		}
		used[x] = true
		live = append(live, x)
	}
	for _, x := range h.live {
		if h.hurt(x) {
			h.lost = append(h.lost, x)
			h.k.Count("broken_roots", 1)
			continue
		}
		if !used[x] && !in[x] {
			return h.bad("lost", "root %s was acknowledged, but it is not listed", x)
		}
	}
	for _, x := range maybe {
		if used[x] {
			h.k.Count("pending_kept", 1)
		} else {
			h.k.Count("pending_lost", 1)
			if x.hash != (H{}) && !h.hurt(x) {
				h.lost = append(h.lost, x)
			}
		}
	}
	h.mx.Lock()
	h.broken = H{}
	h.live, h.start, h.del = live, make(map[*root]bool), make(map[*root]bool)
	h.mx.Unlock()
	return h.check()
}

// counters are compared with reachability
func (h *hist) check() bool {
	var ns []*graphm.Node
	for _, x := range h.live {
		ns = append(ns, x.nodes...)
		h.vals[x.hash] = x.val
	}
	var need = graphm.Reach(ns)
	for _, x := range h.live {
		need[x.hash], need[H(h.reg.Reference())] = true, true
	}
	for x := range h.vals {
		var v, rc, err = h.c.Get(x, 0)
		h.k.Count("objects_checked", 1)
		switch {
		case err != nil && err != data.ErrNotFound:
			return h.bad("get", "%s: %v", x.Hex()[:6], err)
		case err != nil && need[x]:
			return h.bad("incomplete", "object %s is not stored, but a full root needs it", x.Hex()[:6])
		case err != nil:
		case !bytes.Equal(v, h.vals[x]):
			return h.bad("value", "the value of %s is wrong", x.Hex()[:6])
		case need[x] && rc <= 0:
			return h.bad("unheld", "object %s has counter %d, but a full root needs it", x.Hex()[:6], rc)
		case !need[x] && rc != 0:
			return h.bad("leak", "object %s has counter %d, but no full root needs it", x.Hex()[:6], rc)
		}
	}
	var ls, ok = h.list()
	if !ok {
		return false
	}
	if len(ls) != len(h.live) {
		return h.bad("index", "there are %d roots in the index, want %d", len(ls), len(h.live))
	}
	for _, x := range h.live {
		if rt, err := h.c.Root(x.pk, x.nonce, x.seq); err != nil || rt.Hash != x.hash || rt.Sig != x.sig || !rt.IsFull {
			return h.bad("index", "root %s is not in the index: %v", x, err)
		}
	}
	return true
}

func (h *hist) addFeed(f int) bool {
	if err := h.c.AddFeed(h.pk[f]); err != nil {
		return h.bad("addfeed", "%v", err)
	}
	h.mx.Lock()
	h.feed[f] = true
	h.mx.Unlock()
	return true
}

func (h *hist) content() (refs []registry.Dynamic, ns []*graphm.Node) {
	var r = h.r
	for i, d := range h.lrf {
		if r.Intn(3) > 0 {
			refs, ns = append(refs, d), append(ns, h.last[i])
		}
	}
	for i := r.Intn(5); i > 0; i-- {
		h.world.g.Add()
	}
	for i := r.Intn(4); i > 0; i-- {
		var d, n = h.world.g.Dynamic(h.world.g.Max)
		refs, ns = append(refs, d), append(ns, n)
		if r.Intn(5) == 0 { // twice
			refs, ns = append(refs, d), append(ns, n)
		}
	}
	if len(refs) > 8 {
		refs, ns = refs[:8], ns[:8]
	}
	h.lrf, h.last = refs, ns
	return
}

func (h *hist) step() bool {
	var r = h.r
	switch r.Intn(9) {
	case 0:
		if len(h.live) > 0 {
			return h.delRoot()
		}
	case 1:
		return h.clean()
	case 2:
		return h.save(h.newSave())
	case 3:
		if len(h.lost) > 0 {
			var x = h.lost[0]
			h.lost = h.lost[1:]
			return h.again(x)
		}
	case 4:
		if r.Intn(3) == 0 {
			return h.delFeed(r.Intn(2))
		}
	case 5, 6:
		return h.several()
	case 7:
		if len(h.open) > 0 {
			h.logf("close unpack")
			h.open[0].Close()
			h.open = h.open[1:]
			return true
		}
	}
	return h.fill(h.newFill())
}

// fill an interrupted root again
func (h *hist) again(x *root) bool {
	for _, y := range h.live {
		if y.f == x.f && y.nonce == x.nonce && y.seq == x.seq {
			return true // by other process
		}
	}
	h.k.Count("filled_after_crash", 1)
	return h.fill(&filling{x: x, stop: -1, must: true, seed: h.r.Int63()})
}

func (h *hist) several() bool {
	var r = h.r
	var fs []func() bool
	for i := 2 + r.Intn(2); i > 0; i-- {
		switch r.Intn(6) {
		case 0:
			fs = append(fs, h.save2(h.newSave()))
		case 1:
			if len(h.live) > 0 {
				fs = append(fs, h.delOf(h.live[r.Intn(len(h.live))]))
			}
		case 2:
			fs = append(fs, h.clean)
		default:
			var j = h.newFill()
			fs = append(fs, func() bool { return h.fill(j) })
		}
	}
	var wg sync.WaitGroup
	var no int32
	for _, f := range fs {
		var f = f
		wg.Add(1)
		go func() {
			defer wg.Done()
			h.k.Guard("panic", "concurrent", func() {
				if !f() {
					atomic.AddInt32(&no, 1)
				}
			})
		}()
	}
	wg.Wait()
	return no == 0
}

type filling struct {
	x    *root
	stop int // after so many requests
	must bool
	seed int64
}

func (h *hist) next(x *root) {
	var key = fmt.Sprint(x.f, x.nonce)
	h.seq[key] += uint64(1 + h.r.Intn(3))
	x.seq = h.seq[key]
}

func (h *hist) newFill() (j *filling) {
	var r = h.r
	j = &filling{x: &root{id: atomic.AddInt32(&ids, 1), f: r.Intn(2), nonce: uint64(1 + r.Intn(2))}, stop: -1, seed: r.Int63()}
	var x = j.x
	x.pk = h.pk[x.f]
	h.next(x)
	x.refs, x.nodes = h.content()
	var rt = &registry.Root{Pub: x.pk, Nonce: x.nonce, Seq: x.seq, Time: int64(1000 + r.Intn(1000)), Reg: h.reg.Reference(), Refs: x.refs}
	r.Read(rt.Prev[:])
	x.val = rt.Encode()
	x.hash = h.put(x.val)
	x.sig, _ = cipher.SignHash(x.hash, h.sk[x.f])
	if r.Intn(4) == 0 {
		j.stop = r.Intn(8)
	}
	return
}

func (h *hist) fill(j *filling) bool {
	var r = rand.New(rand.NewSource(j.seed))
	var x = j.x
	h.logf("fill %s, stop %d", x, j.stop)
	var rt, err = h.c.ReceivedRoot(x.pk, x.sig, x.val)
	if err != nil {
		return h.bad("received", "a proper root is refused: %v", err)
	}
	if rt.IsFull {
		return h.bad("full", "root %s is full", x)
	}
	var end = h.begin("filling", x, nil)
	var rq = make(chan H, r.Intn(3))
	var f = h.c.Fill(rt, rq, r.Intn(4))
	var stop, done = make(chan struct{}), make(chan struct{})
	go func() {
		defer close(done)
		var n int
		for {
			select {
			case y := <-rq:
				if n == j.stop {
					go f.Close()
				}
				if n++; j.stop >= 0 && n > j.stop {
					continue
				}
				if h.vals[y] == nil {
					h.bad("foreign", "%s is requested, there is no such object", y.Hex()[:6])
				}
				if r.Intn(4) == 0 {
					time.Sleep(time.Duration(r.Intn(200)) * time.Microsecond)
				}
				h.c.SetWanted(y, h.vals[y])
			case <-stop:
				return
			}
		}
	}()
	err = f.Run()
	close(stop)
	f.Close()
	<-done
	end(func() {
		if err == nil {
			h.live = append(h.live, x)
		}
	})
	h.logf("  root %s: %v", x, err)
	if err != nil {
		h.k.Count("stopped_fillings", 1)
		if j.must {
			return h.bad("failed", "a root interrupted by a crash can't be filled again: %v", err)
		}
	} else {
		h.k.Count("filled", 1)
	}
	return true
}

type saving struct {
	x    *root
	put  []H
	left bool // open
}

func (h *hist) newSave() (s *saving) {
	var r = h.r
	s = &saving{x: &root{id: atomic.AddInt32(&ids, 1), f: r.Intn(2), nonce: uint64(3 + r.Intn(2))}, left: r.Intn(5) == 0}
	var x = s.x
	x.pk = h.pk[x.f]
	x.refs, x.nodes = h.content()
	for y := range graphm.Reach(x.nodes) {
		s.put = append(s.put, y)
	}
	// a map has no order
	for i := range s.put {
		for j := i; j > 0 && s.put[j].Hex() < s.put[j-1].Hex(); j-- {
			s.put[j], s.put[j-1] = s.put[j-1], s.put[j]
		}
	}
	r.Shuffle(len(s.put), func(i, j int) { s.put[i], s.put[j] = s.put[j], s.put[i] })
	return
}

func (h *hist) save2(s *saving) func() bool { return func() bool { return h.save(s) } }

var saves sync.Mutex // savings of a head one by one

func (h *hist) save(s *saving) bool {
	var x = s.x
	var up, err = h.c.Unpack(h.sk[x.f], h.reg)
	if err != nil {
		return h.bad("unpack", "%v", err)
	}
	h.logf("save %d/%d, open %v", x.f, x.nonce, s.left)
	var end = h.begin("saving", x, nil)
	for _, y := range s.put {
		if err = up.Set(y, h.vals[y]); err != nil {
			end(nil)
			return h.bad("store", "Set: %v", err)
		}
	}
	if s.left {
		end(func() { h.open = append(h.open, up) })
		return true
	}
	var rt = &registry.Root{Pub: x.pk, Nonce: x.nonce, Reg: h.reg.Reference(), Refs: x.refs}
	saves.Lock()
	err = h.c.Save(up, rt)
	saves.Unlock()
	end(func() {
		if err == nil {
			var z = *x
			z.seq, z.hash, z.sig, z.val = rt.Seq, rt.Hash, rt.Sig, rt.Encode()
			h.live = append(h.live, &z)
		}
	})
	if err != nil {
		return h.bad("save", "%v", err)
	}
	up.Close()
	h.logf("  saved %d/%d/%d", x.f, x.nonce, rt.Seq)
	h.k.Count("saved", 1)
	return true
}

func (h *hist) remove(f func(x *root) bool) {
	var live []*root
	for _, x := range h.live {
		if !f(x) {
			live = append(live, x)
		}
	}
	h.live = live
}

func (h *hist) delRoot() bool { return h.delOf(h.live[h.r.Intn(len(h.live))])() }

func (h *hist) delOf(y *root) func() bool {
	return func() bool {
		h.mx.Lock()
		var there bool
		for _, x := range h.live {
			there = there || x == y && !h.taken[x]
		}
		if h.taken == nil {
			h.taken = make(map[*root]bool)
		}
		h.taken[y] = true
		h.mx.Unlock()
		if !there {
			return true
		}
		h.logf("delete root %s", y)
		var end = h.begin("deleting", nil, []*root{y})
		var err = h.c.DelRoot(y.pk, y.nonce, y.seq)
		end(func() { h.remove(func(x *root) bool { return x == y }) })
		if err != nil {
			return h.bad("delroot", "%s: %v", y, err)
		}
		h.k.Count("deleted", 1)
		return true
	}
}

func (h *hist) delFeed(f int) bool {
	var ds []*root
	for _, x := range h.live {
		if x.f == f {
			ds = append(ds, x)
		}
	}
	h.logf("delete feed %d", f)
	var end = h.begin("deleting", nil, ds)
	var err = h.c.DelFeed(h.pk[f])
	end(func() { h.remove(func(x *root) bool { return x.f == f }) })
	if err != nil {
		return h.bad("delfeed", "%v", err)
	}
	return h.addFeed(f)
}

func (h *hist) clean() bool {
	h.logf("clean")
	var end = h.begin("cleaning", nil, nil)
	var err = cxoutils.RemoveObjects(h.c)
	end(nil)
	if err != nil {
		return h.bad("clean", "%v", err)
	}
	h.k.Count("cleaned", 1)
	return true
}
