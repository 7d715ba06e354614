// C21: authenticity of roots
package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"reflect"
	"sync"
	"time"

	"verif/cxstore"
	"verif/kit"

	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/data/idxdb"
	"github.com/skycoin/cxo/skyobject"
	"github.com/skycoin/cxo/skyobject/registry"
	"github.com/skycoin/skycoin/src/cipher"
)

// H is hash
type H = cipher.SHA256

func main() {
	kit.Main("C21", kit.Opts{
		Rule: "random roots are offered to a container properly signed, and then with every kind of forgery: changed, truncated and extended bytes, changed signatures, " +
			"signatures by other keys and of other bytes, other feeds, feeds that are not shared, random bytes; the database is compared before and after; " +
			"non-trivial are forgeries one step from an accepted root; distinct by the bytes, signature and feed",
		Need: []string{"accepted", "accepted_full", "refused_bytes", "refused_sig", "refused_key", "refused_feed", "refused_not_shared", "refused_garbage",
			"refused_not_canonical", "previewed", "bits"},
		MinCases: 2000,
	}, run)
}

func run(k *kit.K) {
	for i := 0; i < k.N(25, 1500) && k.Bad() < 15; i++ {
		k.Within("hang", fmt.Sprint(i), time.Minute, func() { round(k, k.Rng("r", i), i) })
	}
}

type env struct {
	k     *kit.K
	c     *skyobject.Container
	st    *cxstore.Store
	mx    sync.Mutex
	calls int
}

func round(k *kit.K, r *rand.Rand, n int) {
	var st = cxstore.New()
	var conf = skyobject.NewConfig()
	conf.DB = data.NewDB(st, idxdb.NewMemeoryDB())
	var c, err = skyobject.NewContainer(conf)
	if err != nil {
		k.Violate("open", "", "%v", err)
		return
	}
	defer c.Close()
	var pks []cipher.PubKey
	var sks []cipher.SecKey
	for i := 0; i < 3; i++ {
		var pk, sk, _ = cipher.GenerateDeterministicKeyPair([]byte(fmt.Sprint("c21", n, i)))
		pks, sks = append(pks, pk), append(sks, sk)
		if i < 2 {
			c.AddFeed(pk)
		}
	}
	var reg = registry.NewRegistry(func(r *registry.Reg) { r.Register("t.t", struct{ A uint64 }{}) })
	c.Set(H(reg.Reference()), reg.Encode(), 100)
	var e = &env{k: k, c: c, st: st}
	for i := 0; i < 8; i++ {
		var f = r.Intn(2)
		var rt = &registry.Root{Pub: pks[f], Nonce: r.Uint64(), Seq: uint64(r.Intn(5)), Time: r.Int63(), Reg: reg.Reference()}
		for j := r.Intn(4); j > 0; j-- {
			var d registry.Dynamic
			r.Read(d.Hash[:])
			r.Read(d.Schema[:])
			rt.Refs = append(rt.Refs, d)
		}
		rt.Descriptor = make([]byte, r.Intn(20))
		r.Read(rt.Descriptor)
		if rt.Seq > 0 {
			r.Read(rt.Prev[:])
		}
		e.root(r, rt, pks, sks, f)
	}
}

func (e *env) state() string {
	var s string
	for h, o := range e.st.Snapshot() {
		_ = h
		s += fmt.Sprint(o.RC, ",")
	}
	var n int
	for _, pk := range e.c.Feeds() {
		var hs, _ = e.c.Heads(pk)
		n += len(hs)
	}
	return fmt.Sprint(len(s), len(e.st.Snapshot()), len(e.c.Feeds()), n)
}

func (e *env) offer(preview bool, pk cipher.PubKey, sig cipher.Sig, val []byte) (rt *registry.Root, err error) {
	var cas = fmt.Sprintf("pk %s sig %x val %x", pk.Hex(), sig[:], val)
	if !e.k.Guard("panic", cas, func() {
		if preview {
			rt, err = e.c.PreviewRoot(pk, sig, append([]byte(nil), val...))
		} else {
			rt, err = e.c.ReceivedRoot(pk, sig, append([]byte(nil), val...))
		}
	}) {
		return nil, fmt.Errorf("panic")
	}
	return
}

func (e *env) refused(key, what string, pk cipher.PubKey, sig cipher.Sig, val []byte) {
	var before = e.state()
	for _, p := range []bool{false, true} {
		if p && key == "not_shared" {
			continue
		}
		var rt, err = e.offer(p, pk, sig, val)
		e.k.Case(key != "garbage", fmt.Sprint(p, pk.Hex(), sig.Hex(), string(val)))
		if err == nil {
			e.k.Violate("accepted "+key, fmt.Sprintf("%s: feed %s, signature %s, bytes %x", what, pk.Hex(), sig.Hex(), val), "a wrong root is accepted (preview: %v): %s", p, rt)
			return
		}
		e.k.Count("refused_"+key, 1)
	}
	if after := e.state(); after != before {
		e.k.Violate("stored", what, "the database was changed by a refused root: %s -> %s", before, after)
	}
}

func fields(r *registry.Root) registry.Root {
	var x = *r
	x.Sig, x.Hash, x.IsFull = cipher.Sig{}, H{}, false
	if len(x.Descriptor) == 0 {
		x.Descriptor = nil
	}
	if len(x.Refs) == 0 {
		x.Refs = nil
	}
	return x
}

func (e *env) root(r *rand.Rand, rt *registry.Root, pks []cipher.PubKey, sks []cipher.SecKey, f int) {
	var k = e.k
	var val = rt.Encode()
	var hash = cipher.SumSHA256(val)
	var sig, err = cipher.SignHash(hash, sks[f])
	if err != nil {
		panic(err)
	}
	var before = e.state()
	for _, p := range []bool{false, true} {
		var got, err = e.offer(p, rt.Pub, sig, val)
		if err != nil {
			k.Violate("refused", fmt.Sprintf("%x", val), "a proper root is refused (preview: %v): %v", p, err)
			return
		}
		if got.Hash != hash || got.Sig != sig || got.IsFull || !reflect.DeepEqual(fields(got), fields(rt)) {
			k.Violate("refused", fmt.Sprintf("%x", val), "a received root differs (preview: %v, full: %v)", p, got.IsFull)
			return
		}
		k.Count("accepted", 1)
		if p {
			k.Count("previewed", 1)
		}
	}
	if after := e.state(); after != before {
		k.Violate("stored", "", "the database was changed: %s -> %s", before, after)
	}
	// bytes
	for i := 0; i < 60; i++ {
		var x = append([]byte(nil), val...)
		x[r.Intn(len(x))] ^= 1 << uint(r.Intn(8))
		k.Count("bits", 1)
		e.refused("bytes", "changed bit", rt.Pub, sig, x)
	}
	e.refused("bytes", "truncated", rt.Pub, sig, val[:r.Intn(len(val))])
	e.refused("bytes", "extended", rt.Pub, sig, append(append([]byte(nil), val...), byte(r.Intn(256))))
	// another root of the feed
	var y = *rt
	y.Seq++
	e.refused("bytes", "other root", rt.Pub, sig, y.Encode())
	// signature
	for i := 0; i < 20; i++ {
		var s = sig
		s[r.Intn(len(s))] ^= 1 << uint(r.Intn(8))
		e.refused("sig", "changed bit of signature", rt.Pub, s, val)
	}
	e.refused("sig", "blank", rt.Pub, cipher.Sig{}, val)
	var s2, _ = cipher.SignHash(cipher.SumSHA256([]byte("other")), sks[f])
	e.refused("sig", "of another", rt.Pub, s2, val)
	// key
	var g = 1 - f
	var sg, _ = cipher.SignHash(hash, sks[g])
	e.refused("key", "by another owner", rt.Pub, sg, val)
	// the owner of another feed signs a root of this feed and sends it as own
	e.refused("feed", "root of another feed", pks[g], sg, val)
	e.refused("feed", "blank feed", cipher.PubKey{}, sig, val)
	// not shared
	var z = *rt
	z.Pub = pks[2]
	var zv = z.Encode()
	var zs, _ = cipher.SignHash(cipher.SumSHA256(zv), sks[2])
	e.refused("not_shared", "feed that is not shared", pks[2], zs, zv)
	// the owner signs bytes that are not an encoded Root
	for i := 0; i < 4; i++ {
		var x = append([]byte(nil), val...)
		switch i {
		case 0:
			x = append(x, 0)
		case 1:
			x = append(x, x...)
		case 2:
			x = x[:r.Intn(len(x))]
		case 3:
			x = nil
		}
		var s, _ = cipher.SignHash(cipher.SumSHA256(x), sks[f])
		e.refused("not_canonical", "signed, but not an encoded root", rt.Pub, s, x)
	}
	// garbage
	for i := 0; i < 10; i++ {
		var x = make([]byte, r.Intn(200))
		r.Read(x)
		if r.Intn(2) == 0 {
			copy(x, val)
			x = append(x, bytes.Repeat([]byte{0xff}, r.Intn(8))...)
		}
		var s cipher.Sig
		r.Read(s[:])
		var pk = pks[r.Intn(3)]
		if r.Intn(3) == 0 {
			r.Read(pk[:])
		}
		e.refused("garbage", "garbage", pk, s, x)
	}
	// add it, and it is full then
	var full = *rt
	full.Hash, full.Sig, full.IsFull = hash, sig, true
	e.c.Set(hash, val, 1)
	if _, err = e.c.AddRoot(&full); err != nil {
		k.Violate("add", "", "%v", err)
		return
	}
	if got, err := e.offer(false, rt.Pub, sig, val); err != nil || !got.IsFull {
		k.Violate("full", "", "a root that is in the database is not reported as full: %v", err)
	} else {
		k.Count("accepted_full", 1)
	}
	if got, err := e.offer(true, rt.Pub, sig, val); err != nil || got.IsFull {
		k.Violate("full", "", "a preview reports IsFull: %v", err)
	}
	e.refused("key", "by another owner after adding", rt.Pub, sg, val)
}
