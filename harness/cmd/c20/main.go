// C20: the index of a container against a model
package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/kit"

	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/skyobject"
	"github.com/skycoin/cxo/skyobject/registry"
	"github.com/skycoin/skycoin/src/cipher"
)

// H is hash
type H = cipher.SHA256

func main() {
	kit.Main("C20", kit.Opts{
		Rule: "random histories of adding and deleting feeds, heads and roots (saved ones and received ones in any order of sequence numbers and timestamps) and of " +
			"reopenings; after each step everything the container reports is compared with a model; in concurrent histories every goroutine has its own feeds; " +
			"non-trivial if there were two heads with roots; distinct by the history",
		Need: []string{"calls", "added_roots", "saved_roots", "older_added", "refused", "already_have", "deleted_roots", "deleted_last", "deleted_heads",
			"deleted_feeds", "reopenings", "compared_feeds", "compared_heads", "compared_roots", "active_head_changes", "concurrent", "blank_heads"},
		MinCases: 200,
	}, run)
}

func run(k *kit.K) {
	for i := 0; i < k.N(400, 15000) && k.Bad() < 15; i++ {
		k.Within("hang", fmt.Sprint(i), time.Minute, func() { single(k, i) })
	}
	for i := 0; i < k.N(30, 1000) && k.Bad() < 15; i++ {
		k.Within("hang", fmt.Sprint("c", i), time.Minute, func() { conc(k, i) })
	}
}

type t struct{ A uint64 }

type hist struct {
	k    *kit.K
	r    *rand.Rand
	name string

	conf *skyobject.Config
	c    *skyobject.Container
	reg  *registry.Registry

	pk, foreign []cipher.PubKey
	sk          []cipher.SecKey
	m           map[cipher.PubKey]map[uint64]map[uint64]*registry.Root
	active      map[cipher.PubKey]uint64
	log         []string
	nontrivial  bool
	alone       bool
	clock       int64
}

func (h *hist) bad(key, f string, a ...interface{}) {
	h.k.Violate(key, h.name+"\n"+strings.Join(h.log, "\n"), f, a...)
}

func (h *hist) logf(f string, a ...interface{}) { h.log = append(h.log, fmt.Sprintf(f, a...)) }

func newHist(k *kit.K, r *rand.Rand, name string, feeds int) (h *hist) {
	h = &hist{k: k, r: r, name: name, m: make(map[cipher.PubKey]map[uint64]map[uint64]*registry.Root), active: make(map[cipher.PubKey]uint64)}
	for i := 0; i < feeds; i++ {
		var pk, sk, _ = cipher.GenerateDeterministicKeyPair([]byte(fmt.Sprint(name, i)))
		h.pk, h.sk = append(h.pk, pk), append(h.sk, sk)
	}
	h.reg = registry.NewRegistry(func(r *registry.Reg) { r.Register("t.t", t{}) })
	h.clock = time.Now().UnixNano() - 1e15
	h.alone = true
	return
}

func single(k *kit.K, n int) {
	var r = k.Rng("h", n)
	var h = newHist(k, r, fmt.Sprint("history ", n), 1+r.Intn(3))
	h.conf = skyobject.NewConfig()
	h.conf.DataDir = filepath.Join(os.TempDir(), fmt.Sprint("h", n))
	defer os.RemoveAll(h.conf.DataDir)
	var err error
	if h.c, err = skyobject.NewContainer(h.conf); err != nil {
		h.bad("open", "%v", err)
		return
	}
	for i, n := 0, 10+r.Intn(40); i < n; i++ {
		var ok bool
		if !k.Guard("panic", h.name+" see the other one", func() { ok = h.step() && h.check() }) {
			h.bad("panic", "panic of the last call")
			return
		}
		if !ok {
			return
		}
	}
	if err = h.c.Close(); err != nil {
		h.bad("close", "%v", err)
		return
	}
	k.Case(h.nontrivial, strings.Join(h.log, "\n"))
}

func conc(k *kit.K, n int) {
	var conf = skyobject.NewConfig()
	conf.DataDir = filepath.Join(os.TempDir(), fmt.Sprint("c", n))
	defer os.RemoveAll(conf.DataDir)
	var c, err = skyobject.NewContainer(conf)
	if err != nil {
		k.Violate("open", "", "%v", err)
		return
	}
	var wg sync.WaitGroup
	var hs []*hist
	for i := 0; i < 4; i++ {
		var h = newHist(k, k.Rng("c", n, i), fmt.Sprint("concurrent ", n, i), 1+n%2)
		h.c, h.alone = c, false
		hs = append(hs, h)
		wg.Add(1)
		go func() {
			defer wg.Done()
			k.Guard("panic", h.name, func() {
				for i := 0; i < 30; i++ {
					if !h.step() || !h.check() {
						return
					}
				}
			})
		}()
	}
	wg.Wait()
	k.Count("concurrent", 1)
	if k.Bad() > 0 {
		return
	}
	for re := 0; re < 2; re++ {
		var feeds int
		for _, h := range hs {
			if !h.check() {
				return
			}
			feeds += len(h.m)
			k.Case(h.nontrivial, strings.Join(h.log, "\n"))
		}
		if len(c.Feeds()) != feeds {
			k.Violate("feeds", hs[0].name, "%d feeds are listed, want %d", len(c.Feeds()), feeds)
		}
		if err = c.Close(); err != nil {
			k.Violate("close", hs[0].name, "%v", err)
			return
		}
		if re == 1 {
			return
		}
		if c, err = skyobject.NewContainer(conf); err != nil {
			k.Violate("open", hs[0].name, "%v", err)
			return
		}
		for _, h := range hs {
			h.c = c
		}
	}
}

func (h *hist) roots(pk cipher.PubKey, n uint64) (seqs []uint64) {
	for s := range h.m[pk][n] {
		seqs = append(seqs, s)
	}
	sort.Slice(seqs, func(i, j int) bool { return seqs[i] < seqs[j] })
	return
}

func (h *hist) last(pk cipher.PubKey, n uint64) *registry.Root {
	var s = h.roots(pk, n)
	if len(s) == 0 {
		return nil
	}
	return h.m[pk][n][s[len(s)-1]]
}

var seqs = []uint64{0, 1, 2, 3, 4, 5, 7, 100, 255, 256, 65536, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 100}

func (h *hist) step() bool {
	var r = h.r
	h.k.Count("calls", 1)
	var f = r.Intn(len(h.pk))
	var pk = h.pk[f]
	var nonce = []uint64{1, 2, 3, 1<<64 - 1}[r.Intn(4)]
	var _, feed = h.m[pk]
	var _, head = h.m[pk][nonce]
	var err error
	switch x := r.Intn(24); {
	case x < 3 || !feed && x < 8:
		h.logf("AddFeed(%d)", f)
		if err = h.c.AddFeed(pk); err != nil {
			h.bad("add feed", "%v", err)
			return false
		}
		if !feed {
			h.m[pk] = make(map[uint64]map[uint64]*registry.Root)
		}
	case x < 5:
		h.logf("AddHead(%d, %d)", f, nonce)
		err = h.c.AddHead(pk, nonce)
		if feed != (err == nil) || !feed && err != data.ErrNoSuchFeed {
			h.bad("add head", "error %v", err)
			return false
		}
		if feed && !head {
			h.m[pk][nonce] = make(map[uint64]*registry.Root)
			h.k.Count("blank_heads", 1)
		}
	case x < 13:
		return h.add(f, pk, nonce)
	case x < 16:
		return h.save(f, pk, nonce)
	case x < 20:
		var seq = seqs[r.Intn(len(seqs))]
		if s := h.roots(pk, nonce); len(s) > 0 && r.Intn(5) > 0 {
			seq = s[r.Intn(len(s))]
			if r.Intn(2) == 0 {
				seq = s[len(s)-1]
			}
		}
		h.logf("DelRoot(%d, %d, %d)", f, nonce, seq)
		err = h.c.DelRoot(pk, nonce, seq)
		switch _, ok := h.m[pk][nonce][seq]; {
		case ok && err != nil:
			h.bad("delete", "DelRoot: %v", err)
			return false
		case !ok && err == nil:
			h.bad("delete", "DelRoot returns no error, but there is no such root")
			return false
		case ok:
			if h.last(pk, nonce).Seq == seq {
				h.k.Count("deleted_last", 1)
			}
			delete(h.m[pk][nonce], seq)
			h.k.Count("deleted_roots", 1)
		default:
			h.k.Count("refused", 1)
		}
	case x == 20:
		h.logf("DelHead(%d, %d)", f, nonce)
		err = h.c.DelHead(pk, nonce)
		if head != (err == nil) {
			h.bad("delete", "DelHead: %v", err)
			return false
		}
		if head {
			delete(h.m[pk], nonce)
			h.k.Count("deleted_heads", 1)
		}
	case x == 21:
		h.logf("DelFeed(%d)", f)
		err = h.c.DelFeed(pk)
		if feed != (err == nil) {
			h.bad("delete", "DelFeed: %v", err)
			return false
		}
		if feed {
			delete(h.m, pk)
			h.k.Count("deleted_feeds", 1)
		}
	default:
		if !h.alone {
			return true
		}
		h.logf("reopen")
		if err = h.c.Close(); err != nil {
			h.bad("close", "%v", err)
			return false
		}
		if h.c, err = skyobject.NewContainer(h.conf); err != nil {
			h.bad("open", "%v", err)
			return false
		}
		h.k.Count("reopenings", 1)
	}
	return true
}

// add a received root
func (h *hist) add(f int, pk cipher.PubKey, nonce uint64) bool {
	var r = h.r
	var rt = &registry.Root{Pub: pk, Nonce: nonce, Seq: seqs[r.Intn(len(seqs))], Reg: h.reg.Reference(), IsFull: true}
	if s := h.roots(pk, nonce); len(s) > 0 && r.Intn(2) == 0 && s[len(s)-1] < 1<<63 {
		rt.Seq = s[len(s)-1] + 1
	}
	h.clock += 1 + int64(r.Intn(1000))
	rt.Time = h.clock
	switch r.Intn(5) {
	case 0: // older
		rt.Time -= int64(r.Intn(100000))
	case 1: // future
		rt.Time = time.Now().UnixNano() + int64(r.Intn(1e15))
	}
	if rt.Seq > 0 {
		rt.Prev = cipher.SumSHA256([]byte(fmt.Sprint(r.Int())))
	}
	rt.Hash = cipher.SumSHA256(rt.Encode())
	rt.Sig, _ = cipher.SignHash(rt.Hash, h.sk[f])
	var has = h.m[pk][nonce][rt.Seq]
	var _, feed = h.m[pk]
	if feed && r.Intn(6) == 0 { // wrong
		var x = *rt
		switch r.Intn(4) {
		case 0:
			x.IsFull = false
		case 1:
			x.Pub = cipher.PubKey{}
		case 2:
			x.Hash = H{}
		case 3:
			x.Sig = cipher.Sig{}
		}
		h.logf("AddRoot of a wrong one")
		if _, err := h.c.AddRoot(&x); err == nil {
			h.bad("add", "a wrong root is added")
			return false
		}
		h.k.Count("refused", 1)
		return true
	}
	if feed && has == nil {
		h.c.Set(rt.Hash, rt.Encode(), 1)
		h.c.Set(H(rt.Reg), h.reg.Encode(), 1)
	}
	h.logf("AddRoot(%d, %d, %d) time %d", f, nonce, rt.Seq, rt.Time)
	var have, err = h.c.AddRoot(rt)
	switch {
	case !feed && err != data.ErrNoSuchFeed:
		h.bad("add", "AddRoot to unknown feed: %v", err)
		return false
	case !feed:
		h.k.Count("refused", 1)
		return true
	case err != nil:
		h.bad("add", "AddRoot: %v", err)
		return false
	case have != (has != nil):
		h.bad("add", "AddRoot returns alreadyHave %v", have)
		return false
	case have:
		h.k.Count("already_have", 1)
		return true
	}
	if l := h.last(pk, nonce); l != nil && l.Seq > rt.Seq {
		h.k.Count("older_added", 1)
	}
	h.put(rt)
	h.k.Count("added_roots", 1)
	return true
}

func (h *hist) put(rt *registry.Root) {
	var hs = h.m[rt.Pub]
	if hs[rt.Nonce] == nil {
		hs[rt.Nonce] = make(map[uint64]*registry.Root)
	}
	hs[rt.Nonce][rt.Seq] = rt
}

func (h *hist) save(f int, pk cipher.PubKey, nonce uint64) bool {
	var _, feed = h.m[pk]
	var rt = &registry.Root{Pub: pk, Nonce: nonce, Reg: h.reg.Reference(), Descriptor: []byte(h.name)}
	// the fields Save sets may have any values
	if h.r.Intn(2) == 0 {
		rt.Seq = []uint64{1, uint64(h.r.Intn(5)), 1 << 40, ^uint64(0), ^uint64(0) - 1}[h.r.Intn(5)]
		h.r.Read(rt.Hash[:])
		h.r.Read(rt.Sig[:])
		rt.Time = int64(h.r.Uint64())
		rt.IsFull = h.r.Intn(2) == 0
		h.k.Count("saved_with_garbage", 1)
	}
	if h.r.Intn(2) == 0 {
		h.r.Read(rt.Prev[:])
	}
	if h.r.Intn(4) == 0 {
		rt.Reg = registry.RegistryRef{} // set by Save
	}
	var up, err = h.c.Unpack(h.sk[f], h.reg)
	if err != nil {
		h.bad("save", "%v", err)
		return false
	}
	defer up.Close()
	var l = h.last(pk, nonce)
	if h.r.Intn(4) == 0 {
		var wrong = *rt
		h.r.Read(wrong.Reg[:])
		wrong.Refs = []registry.Dynamic{{}}
		if err = h.c.Save(up, &wrong); err == nil {
			h.bad("save", "saved a root of another registry")
			return false
		}
		h.k.Count("wrong_registry", 1)
	}
	h.logf("Save(%d, %d) of seq %d, prev %s", f, nonce, rt.Seq, rt.Prev.Hex()[:6])
	err = h.c.Save(up, rt)
	switch {
	case !feed && err == nil:
		h.bad("save", "saved to unknown feed")
		return false
	case !feed:
		h.k.Count("refused", 1)
		return true
	case err != nil:
		h.bad("save", "%v", err)
		return false
	}
	if l != nil && (rt.Seq != l.Seq+1 || rt.Prev != l.Hash) {
		h.bad("save", "the saved root has seq %d and prev %s after %d, %s", rt.Seq, rt.Prev.Hex()[:6], l.Seq, l.Hash.Hex()[:6])
		return false
	}
	if l == nil && (rt.Seq != 0 || rt.Prev != (cipher.SHA256{})) {
		h.bad("save", "the first root of a head has seq %d and prev %s", rt.Seq, rt.Prev.Hex()[:6])
		return false
	}
	if rt.Reg != h.reg.Reference() || rt.Hash != cipher.SumSHA256(rt.Encode()) {
		h.bad("save", "the saved root has wrong registry or hash")
		return false
	}
	if cipher.VerifyPubKeySignedHash(pk, rt.Sig, rt.Hash) != nil || !rt.IsFull {
		h.bad("save", "the saved root has no signature, or it's not full")
		return false
	}
	h.put(rt)
	h.k.Count("saved_roots", 1)
	return true
}

func (h *hist) same(what string, rt, want *registry.Root, err error) bool {
	if err != nil {
		h.bad(what, "%s: %v", what, err)
		return false
	}
	if rt.Hash != want.Hash || rt.Sig != want.Sig || rt.Seq != want.Seq || rt.Nonce != want.Nonce || rt.Pub != want.Pub || rt.Time != want.Time || !rt.IsFull {
		h.bad(what, "%s: %s seq %d (full: %v), want %s seq %d", what, rt.Hash.Hex()[:6], rt.Seq, rt.IsFull, want.Hash.Hex()[:6], want.Seq)
		return false
	}
	return true
}

func (h *hist) check() bool {
	var feeds = make(map[cipher.PubKey]bool)
	for _, pk := range h.c.Feeds() {
		if feeds[pk] {
			h.bad("feeds", "a feed is listed twice")
			return false
		}
		feeds[pk] = true
	}
	if h.alone && len(feeds) != len(h.m) {
		h.bad("feeds", "%d feeds are listed, want %d", len(feeds), len(h.m))
		return false
	}
	var st *skyobject.Stat
	if h.alone {
		st = h.c.Stat()
		if len(st.Feeds) != len(h.m) {
			h.bad("stat", "%d feeds in the statistics, want %d", len(st.Feeds), len(h.m))
			return false
		}
	}
	for i, pk := range h.pk {
		var hs, ok = h.m[pk]
		h.k.Count("compared_feeds", 1)
		if feeds[pk] != ok || h.c.HasFeed(pk) != ok {
			h.bad("feeds", "feed %d: listed: %v, HasFeed: %v, want %v", i, feeds[pk], h.c.HasFeed(pk), ok)
			return false
		}
		var heads, err = h.c.Heads(pk)
		if !ok {
			if err != data.ErrNoSuchFeed {
				h.bad("feeds", "Heads of unknown feed: %v", err)
				return false
			}
			if a := h.c.ActiveHead(pk); a != 0 {
				h.bad("active", "ActiveHead of unknown feed is %d", a)
				return false
			}
			if _, err = h.c.LastRoot(pk, 1); err == nil {
				h.bad("feeds", "LastRoot of unknown feed: no error")
				return false
			}
			continue
		}
		var listed = make(map[uint64]bool)
		for _, n := range heads {
			listed[n] = true
		}
		if err != nil || len(heads) != len(hs) || len(listed) != len(hs) {
			h.bad("heads", "feed %d: heads %v (%v), want %d ones", i, heads, err, len(hs))
			return false
		}
		var newest int64
		var full int
		for n := range hs {
			if l := h.last(pk, n); l != nil {
				full++
				if l.Time > newest {
					newest = l.Time
				}
			}
		}
		h.nontrivial = h.nontrivial || full > 1
		var a = h.c.ActiveHead(pk)
		if a != h.active[pk] {
			h.active[pk] = a
			h.k.Count("active_head_changes", 1)
		}
		if l := h.last(pk, a); full == 0 && a != 0 || full > 0 && (l == nil || l.Time != newest) {
			h.bad("active", "feed %d: the active head is %d", i, a)
			return false
		}
		for _, n := range []uint64{1, 2, 3, 1<<64 - 1} {
			h.k.Count("compared_heads", 1)
			var rs, ok = hs[n]
			if h.c.HasHead(pk, n) != ok || listed[n] != ok {
				h.bad("heads", "feed %d: head %d: HasHead: %v, listed: %v, want %v", i, n, h.c.HasHead(pk, n), listed[n], ok)
				return false
			}
			if !ok {
				if _, err = h.c.LastRootSeq(pk, n); err == nil {
					h.bad("heads", "feed %d: LastRootSeq of unknown head %d: no error", i, n)
					return false
				}
				continue
			}
			var l = h.last(pk, n)
			var seq, err = h.c.LastRootSeq(pk, n)
			var rt, err2 = h.c.LastRoot(pk, n)
			switch {
			case l == nil && (err != data.ErrNotFound || err2 != data.ErrNotFound):
				h.bad("last", "feed %d: blank head %d: LastRootSeq: %v, LastRoot: %v", i, n, err, err2)
				return false
			case l == nil:
			case err != nil || seq != l.Seq:
				h.bad("last", "feed %d: head %d: LastRootSeq %d, %v, want %d", i, n, seq, err, l.Seq)
				return false
			case !h.same("LastRoot", rt, l, err2):
				return false
			}
			for _, s := range h.some(rs) {
				h.k.Count("compared_roots", 1)
				var want, ok = rs[s]
				rt, err = h.c.Root(pk, n, s)
				if !ok {
					if err != data.ErrNotFound {
						h.bad("root", "feed %d: head %d: Root(%d): %v, want not found", i, n, s, err)
						return false
					}
					continue
				}
				if !h.same("Root", rt, want, err) {
					return false
				}
				rt, err = h.c.RootByHash(want.Hash)
				if !h.same("RootByHash", rt, want, err) {
					return false
				}
			}
			if st == nil {
				continue
			}
			var hst, ok2 = st.Feeds[pk].Heads[n]
			if !ok2 || hst.Len != len(rs) {
				h.bad("stat", "feed %d: head %d: %d roots in the statistics, want %d", i, n, hst.Len, len(rs))
				return false
			}
			if l != nil && (hst.Last.Seq != l.Seq || hst.Last.Hash != l.Hash || hst.Last.Time.UnixNano() != l.Time) {
				h.bad("stat", "feed %d: head %d: wrong last root in the statistics", i, n)
				return false
			}
			if ss := h.roots(pk, n); len(ss) > 1 && (hst.First.Seq != ss[0] || hst.First.Hash != rs[ss[0]].Hash) {
				h.bad("stat", "feed %d: head %d: wrong first root in the statistics", i, n)
				return false
			}
		}
	}
	return true
}

func (h *hist) some(rs map[uint64]*registry.Root) (s []uint64) {
	for x := range rs {
		if s = append(s, x); len(s) > 4 {
			break
		}
	}
	return append(s, seqs[h.r.Intn(len(seqs))])
}
