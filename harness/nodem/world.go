package nodem

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/graphm"
	"verif/kit"
	"verif/regm"

	"github.com/skycoin/cxo/node"
	"github.com/skycoin/cxo/skyobject/registry"
	"github.com/skycoin/skycoin/src/cipher"
)

// A Root that was published
type Root struct {
	R     *registry.Root
	Reach map[H]bool // with the root and the registry
}

// A Feed with its owner
type Feed struct {
	PK    PK
	SK    cipher.SecKey
	Owner int

	mx     sync.Mutex
	r      *rand.Rand
	reg    *registry.Registry
	g      *graphm.G
	vals   map[H][]byte
	refs   map[uint64][]registry.Dynamic
	nodes  map[uint64][]*graphm.Node
	Roots  map[uint64][]*Root
	Hashes map[H]bool // of every root
	Amount int
	Small  bool
}

// World of nodes
type World struct {
	K     *kit.K
	R     *rand.Rand
	Name  string
	Nodes []*N
	Feeds []*Feed
	Dir   string

	Keep func(key string) bool // report only these
	Fail func(n *N) bool       // the node can fail to save

	mx  sync.Mutex
	log []string
	bad int
}

// NewWorld without nodes
func NewWorld(k *kit.K, r *rand.Rand, name string) (w *World) {
	w = &World{K: k, R: r, Name: name}
	var err error
	if w.Dir, err = os.MkdirTemp("", "nodem"); err != nil {
		panic(err)
	}
	return
}

// Logf an action
func (w *World) Logf(f string, a ...interface{}) {
	w.mx.Lock()
	defer w.mx.Unlock()
	w.log = append(w.log, fmt.Sprintf("%s %s", time.Now().Format("05.000"), fmt.Sprintf(f, a...)))
}

// Log of the World
func (w *World) Log() string {
	w.mx.Lock()
	defer w.mx.Unlock()
	return strings.Join(w.log, "\n")
}

// Report a violation
func (w *World) Report(key, f string, a ...interface{}) {
	if w.Keep != nil && !w.Keep(key) {
		return
	}
	w.mx.Lock()
	w.bad++
	var cas = fmt.Sprintf("%s\n%s", w.Name, strings.Join(w.log, "\n"))
	w.mx.Unlock()
	w.K.Violate(key, cas, f, a...)
}

// Bad is number of violations
func (w *World) Bad() int {
	w.mx.Lock()
	defer w.mx.Unlock()
	return w.bad
}

// CB is log of all callbacks
func (w *World) CB() string {
	var ls []string
	for _, n := range w.Nodes {
		if n != nil {
			ls = append(ls, strings.Split(n.Log(), "\n")...)
		}
	}
	sort.SliceStable(ls, func(i, j int) bool {
		var a, b = strings.SplitN(ls[i], " ", 3), strings.SplitN(ls[j], " ", 3)
		if len(a) < 2 || len(b) < 2 {
			return len(a) < len(b)
		}
		return a[1] < b[1]
	})
	if len(ls) > 150 {
		ls = ls[len(ls)-150:]
	}
	return strings.Join(ls, "\n")
}

// Node adds a node
func (w *World) Node(o Opt) (n *N) {
	var err error
	if n, err = New(fmt.Sprint("n", len(w.Nodes)), o, w.Report); err != nil {
		w.Report("new-node", "%v", err)
		panic(err)
	}
	w.Nodes = append(w.Nodes, n)
	return
}

// Feed adds a feed of the owner
func (w *World) Feed(owner int, small bool) (f *Feed) {
	f = &Feed{Owner: owner, Small: small, vals: make(map[H][]byte), refs: make(map[uint64][]registry.Dynamic),
		nodes: make(map[uint64][]*graphm.Node), Roots: make(map[uint64][]*Root), Hashes: make(map[H]bool)}
	f.r = rand.New(rand.NewSource(w.R.Int63()))
	f.PK, f.SK, _ = cipher.GenerateDeterministicKeyPair([]byte(fmt.Sprint(w.Name, len(w.Feeds), w.R.Int63())))
	var s = regm.NewSet(f.r, regm.Cfg{Max: 4, Refs: f.r.Intn(4) > 0})
	f.reg = s.Registry(s.Order())
	f.g = graphm.New(f.r, s, f.reg, func(v []byte) (x H) {
		x = cipher.SumSHA256(v)
		f.vals[x] = v
		return
	})
	f.g.NoEmpty = true
	f.g.Max = 120
	f.Amount = 8
	if small {
		f.g.Max, f.Amount = 25, 4
	}
	f.vals[H(f.reg.Reference())] = f.reg.Encode()
	w.Feeds = append(w.Feeds, f)
	return
}

// Add objects and make new content of a root
func (f *Feed) content(nonce uint64) {
	var refs, ns = f.refs[nonce], f.nodes[nonce]
	for i := 1 + f.r.Intn(f.Amount); i > 0; i-- {
		f.g.Add()
	}
	if len(refs) > 0 && f.r.Intn(3) == 0 { // without some
		var i = f.r.Intn(len(refs))
		refs = append(append([]registry.Dynamic{}, refs[:i]...), refs[i+1:]...)
		ns = append(append([]*graphm.Node{}, ns[:i]...), ns[i+1:]...)
	}
	for i := 1 + f.r.Intn(3); i > 0; i-- {
		var d, n = f.g.Dynamic(f.g.Max)
		refs, ns = append(refs, d), append(ns, n)
	}
	if len(refs) > 6 {
		refs, ns = refs[len(refs)-6:], ns[len(ns)-6:]
	}
	f.refs[nonce], f.nodes[nonce] = refs, ns
}

// Save a new root in the node, without publishing
func (w *World) Save(n *N, f *Feed, nonce uint64) (x *Root) {
	f.mx.Lock()
	defer f.mx.Unlock()
	f.content(nonce)
	var up, err = n.Container().Unpack(f.SK, f.reg)
	if err != nil {
		if w.Fail == nil || !w.Fail(n) {
			w.Report("unpack", "%v", err)
		}
		return
	}
	defer up.Close()
	x = &Root{Reach: graphm.Reach(f.nodes[nonce])}
	for h := range x.Reach {
		if h != (H{}) {
			if err = up.Set(h, f.vals[h]); err != nil {
				if w.Fail == nil || !w.Fail(n) {
					w.Report("set", "%v", err)
				}
				return nil
			}
		}
	}
	var r = &registry.Root{Pub: f.PK, Nonce: nonce, Refs: append([]registry.Dynamic{}, f.refs[nonce]...), Reg: f.reg.Reference()}
	if err = n.Container().Save(up, r); err != nil {
		if w.Fail == nil || !w.Fail(n) {
			w.Report("save", "%v", err)
		}
		return nil
	}
	delete(x.Reach, H{})
	x.R = r
	x.Reach[H(f.reg.Reference())] = true
	x.Reach[r.Hash] = true
	f.vals[r.Hash] = r.Encode()
	f.Hashes[r.Hash] = true
	f.Roots[nonce] = append(f.Roots[nonce], x)
	return
}

// Publish new root
func (w *World) Publish(f *Feed, nonce uint64) (x *Root) {
	var n = w.Nodes[f.Owner]
	if x = w.Save(n, f, nonce); x != nil {
		w.Logf("%s publishes %s: %d objects", n.Name, short(x.R), len(x.Reach))
		n.Publish(x.R)
	}
	return
}

// Newest root of the feed, by time
func (f *Feed) Newest() (x *Root) {
	f.mx.Lock()
	defer f.mx.Unlock()
	for _, rs := range f.Roots {
		if y := rs[len(rs)-1]; x == nil || y.R.Time > x.R.Time {
			x = y
		}
	}
	return
}

// LastOf a head
func (f *Feed) LastOf(nonce uint64) *Root {
	f.mx.Lock()
	defer f.mx.Unlock()
	if rs := f.Roots[nonce]; len(rs) > 0 {
		return rs[len(rs)-1]
	}
	return nil
}

// Has the node this root as full
func (n *N) Has(x *Root) bool {
	var r, err = n.Container().Root(x.R.Pub, x.R.Nonce, x.R.Seq)
	return err == nil && r.Hash == x.R.Hash
}

// Last root of the head is x
func (n *N) IsLast(x *Root) bool {
	var r, err = n.Container().LastRoot(x.R.Pub, x.R.Nonce)
	return err == nil && r.Hash == x.R.Hash
}

// CheckRoot is complete, byte by byte
func (w *World) CheckRoot(n *N, f *Feed, x *Root) (ok bool) {
	var r, err = n.Container().Root(x.R.Pub, x.R.Nonce, x.R.Seq)
	if err != nil {
		w.Report("no-root", "%s has no root %s: %v", n.Name, short(x.R), err)
		return
	}
	if r.Hash != x.R.Hash || r.Sig != x.R.Sig || !bytes.Equal(r.Encode(), x.R.Encode()) {
		w.Report("other-root", "%s has root %s, but with other content", n.Name, short(x.R))
		return
	}
	f.mx.Lock()
	defer f.mx.Unlock()
	for h := range x.Reach {
		if v, ok := n.St.Peek(h); !ok || !bytes.Equal(v, f.vals[h]) {
			w.Report("incomplete", "%s has root %s as full, but object %s is not stored or differs (stored: %v)", n.Name, short(x.R), h.Hex()[:7], ok)
			return false
		}
		if v, rc, err := n.Container().Get(h, 0); err != nil || rc == 0 || !bytes.Equal(v, f.vals[h]) {
			w.Report("get", "%s: object %s of %s can't be got: rc %d, %v", n.Name, h.Hex()[:7], short(x.R), rc, err)
			return false
		}
	}
	return true
}

// Roots the node has of the feed
func (w *World) CheckFeed(n *N, f *Feed) (count int) {
	f.mx.Lock()
	var all []*Root
	var hashes = make(map[H]*Root)
	for _, rs := range f.Roots {
		all = append(all, rs...)
	}
	for _, x := range all {
		hashes[x.R.Hash] = x
	}
	f.mx.Unlock()
	for _, x := range all {
		if n.Has(x) {
			count++
			if !w.CheckRoot(n, f, x) {
				return
			}
		}
	}
	return
}

// CheckForeign objects: there are no other than those of the feeds
func (w *World) CheckForeign(n *N, share func(f *Feed) bool) {
	var allowed = make(map[H]bool)
	for _, f := range w.Feeds {
		if share(f) {
			f.mx.Lock()
			for _, rs := range f.Roots {
				for _, x := range rs {
					for h := range x.Reach {
						allowed[h] = true
					}
				}
			}
			f.mx.Unlock()
		}
	}
	for h := range n.St.Snapshot() {
		if !allowed[h] {
			w.Report("foreign", "%s stores object %s that doesn't belong to a root of a feed it shares", n.Name, h.Hex()[:7])
			return
		}
	}
	for _, f := range w.Feeds {
		if share(f) {
			continue
		}
		if hs, err := n.Container().Heads(f.PK); err == nil && len(hs) > 0 {
			w.Report("foreign-feed", "%s has heads %v of a feed it doesn't share", n.Name, hs)
		}
	}
}

// Close all nodes
func (w *World) Close() {
	for _, n := range w.Nodes {
		n.LooseAll()
	}
	var wg sync.WaitGroup
	for _, n := range w.Nodes {
		wg.Add(1)
		go func(n *N) {
			defer wg.Done()
			w.CloseNode(n)
		}(n)
	}
	wg.Wait()
	os.RemoveAll(w.Dir)
}

// CloseNode within a minute
func (w *World) CloseNode(n *N) {
	var done = make(chan error, 1)
	go func() { done <- n.Close() }()
	select {
	case err := <-done:
		if err != nil {
			w.Report("close", "%s: Close: %v", n.Name, err)
		}
		n.End()
		n.Unclosed()
	case <-time.After(time.Minute):
		w.Report("close-hang", "%s: Close doesn't return\n%s", n.Name, kit.Stacks())
	}
}

var _ = node.ErrClosed

// Value of an object of the feed
func (f *Feed) Value(h H) (v []byte, ok bool) {
	f.mx.Lock()
	defer f.mx.Unlock()
	v, ok = f.vals[h]
	return
}

// All published or saved roots
func (f *Feed) All() (xs []*Root) {
	f.mx.Lock()
	defer f.mx.Unlock()
	for _, rs := range f.Roots {
		xs = append(xs, rs...)
	}
	sort.Slice(xs, func(i, j int) bool { return xs[i].R.Time < xs[j].R.Time })
	return
}
