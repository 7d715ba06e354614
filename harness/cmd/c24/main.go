// C24: previews
package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"time"

	"verif/cxstore"
	"verif/graphm"
	"verif/kit"
	"verif/regm"

	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/data/idxdb"
	"github.com/skycoin/cxo/skyobject"
	"github.com/skycoin/cxo/skyobject/registry"
	"github.com/skycoin/skycoin/src/cipher"
)

// H is hash
type H = cipher.SHA256

func main() {
	kit.Main("C24", kit.Opts{
		Rule: "roots of random graphs are previewed with a random part of the objects (or the registry) stored locally, in the cache or not, a source that counts requests, refuses at random and recovers, and storage failures; " +
			"the walk, the values, the tree and every object are compared with the model, the requests with what is stored, the store before and after; " +
			"non-trivial if some objects are local and some are requested; distinct by the graph and the part",
		Need: []string{"previews", "registry_local", "registry_requested", "registry_refused", "objects_local", "objects_requested", "refused", "asked_again_after_refusal", "repeated_not_asked",
			"storage_failed", "registry_storage_failed", "walks", "values", "trees", "unknown", "node_previews", "node_forged_refused", "node_foreign_root_refused", "node_errors", "node_subscribed", "node_not_subscribed", "node_local_not_asked"},
		MinCases: 150,
	}, run)
}

func run(k *kit.K) {
	for i := 0; i < k.N(1200, 20000) && k.Bad() < 15; i++ {
		k.Within("hang", fmt.Sprint(i), time.Minute, func() { one(k, k.Rng("p", i), i) })
	}
	nodes(k)
}

var errRefused = errors.New("refused by the source")
var errStore = errors.New("storage failed")

type source struct {
	vals  map[H][]byte
	asks  map[H]int // all
	done  map[H]int // successful
	calls int
	fail  func(H) bool
}

func (s *source) Get(key H) (val []byte, err error) {
	s.calls++
	s.asks[key]++
	if s.fail != nil && s.fail(key) {
		return nil, errRefused
	}
	var ok bool
	if val, ok = s.vals[key]; !ok {
		return nil, errors.New("source has no such object")
	}
	s.done[key]++
	return append([]byte(nil), val...), nil
}

type pv struct {
	k    *kit.K
	r    *rand.Rand
	n    int
	g    *graphm.G
	vals map[H][]byte
	loc  map[H]bool
	src  *source
	st   *cxstore.Store
	log  []string
}

func (p *pv) cas() string {
	return fmt.Sprintf("preview %d\n%s\n%s", p.n, p.g, strings.Join(p.log, "\n"))
}

func (p *pv) bad(key, f string, a ...interface{}) { p.k.Violate(key, p.cas(), f, a...) }

func one(k *kit.K, r *rand.Rand, n int) {
	var p = &pv{k: k, r: r, n: n, vals: make(map[H][]byte), loc: make(map[H]bool), st: cxstore.New()}
	p.src = &source{vals: p.vals, asks: make(map[H]int), done: make(map[H]int)}
	var s = regm.NewSet(r, regm.Cfg{Max: 4, Refs: r.Intn(8) > 0})
	var reg = s.Registry(s.Order())
	p.g = graphm.New(r, s, reg, func(v []byte) (x H) {
		x = cipher.SumSHA256(v)
		p.vals[x] = v
		return
	})
	p.g.Max = 100
	p.g.NoEmpty = true
	p.vals[H(reg.Reference())] = reg.Encode()
	for i := 3 + r.Intn(15); i > 0; i-- {
		p.g.Add()
	}
	var refs []registry.Dynamic
	var ns []*graphm.Node
	for i := r.Intn(9); i > 0; i-- {
		var d, nd = p.g.Dynamic(p.g.Max)
		refs, ns = append(refs, d), append(ns, nd)
	}
	var rt = &registry.Root{Nonce: r.Uint64(), Seq: uint64(r.Intn(100)), Time: 77, Reg: reg.Reference(), Refs: refs}
	var sk cipher.SecKey
	rt.Pub, sk, _ = cipher.GenerateDeterministicKeyPair([]byte(fmt.Sprint("c24", n)))
	rt.Hash = cipher.SumSHA256(rt.Encode())
	rt.Sig, _ = cipher.SignHash(rt.Hash, sk)

	var conf = skyobject.NewConfig()
	switch r.Intn(4) {
	case 0:
		conf.CacheMaxAmount = 0
	case 1:
		conf.CacheMaxAmount = 1 + r.Intn(5)
	}
	conf.CacheRegistries = r.Intn(3)
	conf.DB = data.NewDB(p.st, idxdb.NewMemeoryDB())
	// what is local
	var part = r.Intn(5)
	for h, v := range p.vals {
		if part > 0 && r.Intn(5) < part || part == 4 {
			p.loc[h] = true
			p.st.Set(h, v, 1+r.Intn(3))
		}
	}
	var before = p.st.Snapshot()
	var c, err = skyobject.NewContainer(conf)
	if err != nil {
		p.bad("open", "%v", err)
		return
	}
	for h := range p.loc { // to the cache
		if r.Intn(3) == 0 {
			c.Get(h, 0)
		}
	}
	var touched bool
	if r.Intn(2) == 0 {
		if p.loc[H(reg.Reference())] {
			c.Registry(reg.Reference())
			touched = true
		}
	}
	if rh := H(reg.Reference()); p.loc[rh] && !touched && !c.IsCached(rh) && r.Intn(3) == 0 {
		p.st.Fail = func(string, H) error { return errStore }
		var _, err = c.Preview(rt, p.src)
		p.st.Fail = nil
		if err == nil || p.src.calls > 0 {
			p.bad("storage", "failure of the storage, Preview returns %v, requests %d", err, p.src.calls)
			return
		}
		k.Count("registry_storage_failed", 1)
	}
	switch r.Intn(4) {
	case 0:
		p.src.fail = func(H) bool { return r.Intn(4) == 0 }
	case 1:
		var at = r.Intn(20)
		p.src.fail = func(H) bool { return p.src.calls > at }
	}
	k.Guard("panic", p.cas(), func() { p.preview(c, reg, rt, ns) })
	c.Close()
	for h, o := range p.st.Snapshot() {
		var b, ok = before[h]
		if !ok {
			p.bad("stored", "object %s is stored by a preview", h.Hex()[:6])
			return
		}
		if b.RC != o.RC || !bytes.Equal(b.Val, o.Val) {
			p.bad("stored", "object %s is changed by a preview, counter %d -> %d", h.Hex()[:6], b.RC, o.RC)
			return
		}
		delete(before, h)
	}
	if len(before) > 0 {
		p.bad("stored", "%d objects are removed by a preview", len(before))
	}
}

func (p *pv) preview(c *skyobject.Container, reg *registry.Registry, rt *registry.Root, ns []*graphm.Node) {
	var k, r, src = p.k, p.r, p.src
	var rh = H(reg.Reference())
	var pk, err = c.Preview(rt, src)
	k.Count("previews", 1)
	if p.loc[rh] {
		if err != nil || src.calls > 0 {
			p.bad("registry", "the registry is stored, but the preview requests (%d) or fails: %v", src.calls, err)
			return
		}
		k.Count("registry_local", 1)
	} else {
		if src.asks[rh] != 1 || src.calls != 1 {
			p.bad("registry", "the registry is requested %d times, %d requests at all", src.asks[rh], src.calls)
			return
		}
		if src.done[rh] == 0 {
			if err == nil {
				p.bad("registry", "the preview succeeds without a registry")
			}
			k.Count("registry_refused", 1)
			return
		}
		if err != nil {
			p.bad("registry", "preview: %v", err)
			return
		}
		k.Count("registry_requested", 1)
	}
	if got := pk.Registry().Reference(); got != reg.Reference() {
		p.bad("registry", "wrong registry %s", got.Short())
		return
	}
	if pk.Root() != rt {
		p.bad("root", "the root of the preview is not the given one")
	}
	for i := 2 + r.Intn(6); i > 0 && k.Bad() < 15; i-- {
		if !p.step(c, pk, rt, ns) {
			return
		}
	}
	// requests
	var loc, req int
	for h := range src.asks {
		if p.loc[h] {
			p.bad("requested", "object %s is requested, but it is stored locally", h.Hex()[:6])
			return
		}
	}
	for h, n := range src.done {
		if n > 1 {
			p.bad("requested", "object %s is requested and received %d times", h.Hex()[:6], n)
			return
		}
	}
	for h := range graphm.Reach(ns) {
		if p.loc[h] {
			loc++
		} else if src.done[h] > 0 {
			req++
		}
	}
	k.Count("objects_local", loc)
	k.Count("objects_requested", req)
	k.Case(loc > 0 && req > 0, p.g.String()+fmt.Sprint(loc, req, src.calls))
}

func (p *pv) step(c *skyobject.Container, pk *skyobject.Preview, rt *registry.Root, ns []*graphm.Node) bool {
	var k, r, src = p.k, p.r, p.src
	switch r.Intn(6) {
	case 0, 1:
		return p.walk(pk, rt, ns)
	case 2: // values
		for i := range rt.Refs {
			var d = rt.Refs[i]
			if d.IsBlank() || !d.IsValid() || d.Hash == (H{}) {
				continue
			}
			var o *graphm.Obj
			for _, x := range p.g.Objs {
				if x.Node.Hash == d.Hash {
					o = x
				}
			}
			var v = reflect.New(reflect.TypeOf(o.V).Elem())
			var was = src.asks[d.Hash] - src.done[d.Hash]
			if err := d.Value(pk, v.Interface()); err != nil {
				if src.asks[d.Hash]-src.done[d.Hash] == was {
					p.bad("value", "value of %s: %v", d.Hash.Hex()[:6], err)
					return false
				}
				k.Count("refused", 1)
				continue
			}
			if got := cipher.SumSHA256(regm.Enc(v.Interface())); got != d.Hash {
				p.bad("value", "value of %s is another value", d.Hash.Hex()[:6])
				return false
			}
			k.Count("values", 1)
		}
	case 3: // all the objects, in random order
		for h, v := range p.vals {
			if r.Intn(2) == 0 || h == H(rt.Reg) {
				continue
			}
			var asked, done = src.asks[h], src.done[h]
			var got, err = pk.Get(h)
			switch {
			case err != nil && src.asks[h]-asked == 1 && src.done[h] == done:
				k.Count("refused", 1)
			case err != nil:
				p.bad("get", "get %s: %v", h.Hex()[:6], err)
				return false
			case !bytes.Equal(got, v):
				p.bad("get", "get %s: wrong value", h.Hex()[:6])
				return false
			case asked > 0 && done == 0:
				k.Count("asked_again_after_refusal", 1)
			case done > 0 && src.asks[h] == asked:
				k.Count("repeated_not_asked", 1)
			}
		}
	case 4: // the storage fails
		var h H
		for h = range p.vals {
			break
		}
		if c.IsCached(h) || src.done[h] > 0 {
			break
		}
		var asked = src.calls
		p.st.Fail = func(op string, key H) error {
			return errStore
		}
		var _, err = pk.Get(h)
		p.st.Fail = nil
		if err == nil || src.calls != asked {
			p.bad("storage", "failure of the storage, get %s returns %v, requests %d", h.Hex()[:6], err, src.calls-asked)
			return false
		}
		k.Count("storage_failed", 1)
	case 5:
		var h H
		r.Read(h[:])
		if _, err := pk.Get(h); err == nil {
			p.bad("get", "an unknown object is found")
			return false
		}
		k.Count("unknown", 1)
	}
	return true
}

// Walk of the root
func (p *pv) walk(pk *skyobject.Preview, rt *registry.Root, ns []*graphm.Node) bool {
	var k, src = p.k, p.src
	var refused = src.calls
	for _, n := range src.done {
		refused -= n
	}
	var got = make(map[graphm.Key]int)
	var err = rt.Walk(pk, func(hash H, depth int) (bool, error) {
		got[graphm.Key{Hash: hash, Depth: depth}]++
		return true, nil
	})
	var now = src.calls
	for _, n := range src.done {
		now -= n
	}
	k.Count("walks", 1)
	if err != nil {
		if now == refused {
			p.bad("walk", "walk: %v", err)
			return false
		}
		return true
	}
	var want, _, _ = graphm.Visits(ns, nil)
	delete(want, graphm.Key{})
	if rh := (graphm.Key{Hash: rt.Hash}); got[rh] > 0 {
		delete(got, rh)
	}
	delete(got, graphm.Key{Hash: H(rt.Reg)})
	for key, n := range want {
		if key.Hash == (H{}) {
			delete(want, key)
			continue
		}
		if got[key] != n {
			p.bad("walk", "walk visits %s/%d %d times, not %d", key.Hash.Hex()[:6], key.Depth, got[key], n)
			return false
		}
	}
	for key := range got {
		if key.Hash != (H{}) && want[key] == 0 {
			p.bad("walk", "walk visits %s/%d", key.Hash.Hex()[:6], key.Depth)
			return false
		}
	}
	var s string
	if s, err = rt.Tree(pk); err == nil {
		k.Count("trees", 1)
		var _ = s
	}
	return true
}
