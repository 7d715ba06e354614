package main

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"sync"
	"time"

	"verif/kit"

	"github.com/skycoin/cxo/cxoutils"
	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/skyobject"
	"github.com/skycoin/cxo/skyobject/registry"
	"github.com/skycoin/skycoin/src/cipher"
)

// H is hash
type H = cipher.SHA256

// A Leaf object
type Leaf struct{ S string }

// A Tree object
type Tree struct {
	Name string
	A    [2]uint16
	B    []Leaf
	L    registry.Ref  `skyobject:"schema=c35.Leaf"`
	R    registry.Refs `skyobject:"schema=c35.Leaf"`
	D    registry.Dynamic
}

func newRegistry() *registry.Registry {
	return registry.NewRegistry(func(r *registry.Reg) {
		r.Register("c35.Leaf", Leaf{})
		r.Register("c35.Tree", Tree{})
	})
}

// users of a container
type users struct {
	k *kit.K
	r *rand.Rand
	n int

	*calls

	c    *skyobject.Container
	dir  string
	pk   []cipher.PubKey // the users', then the shared
	sk   []cipher.SecKey
	own  int
	keep int
	reg  *registry.Registry // shared by the users

	src   *skyobject.Container // other roots
	srcPK cipher.PubKey
	roots []*registry.Root

	stop chan struct{}
}

func (u *users) bad(key, f string, a ...interface{}) {
	u.k.Violate(key, fmt.Sprint("users ", u.n), f, a...)
}

func (u *users) config() (conf *skyobject.Config) {
	var r = u.r
	conf = skyobject.NewConfig()
	conf.Degree = registry.Degree(2 + r.Intn(4))
	switch r.Intn(3) {
	case 0:
		conf.CacheMaxAmount = 0
	case 1:
		conf.CacheMaxAmount = 1 + r.Intn(20)
	}
	conf.CachePolicy = skyobject.CachePolicy(r.Intn(2))
	conf.CacheRegistries = r.Intn(3)
	conf.InMemoryDB = true
	return
}

func (u *users) run() {
	var r, k = u.r, u.k
	u.calls = newCalls(k, fmt.Sprint("users ", u.n), "container_calls")
	u.reg = newRegistry()
	var conf = u.config()
	if r.Intn(3) == 0 {
		conf.InMemoryDB = false
		var err error
		if u.dir, err = os.MkdirTemp("", "c35"); err != nil {
			panic(err)
		}
		defer os.RemoveAll(u.dir)
		conf.DataDir = u.dir
		k.Count("bolt", 1)
	} else {
		k.Count("memory", 1)
	}
	var err error
	if u.c, err = skyobject.NewContainer(conf); err != nil {
		u.bad("open", "%v", err)
		return
	}
	u.own, u.keep = 2+r.Intn(4), 1+r.Intn(4)
	for i := 0; i < u.own+2; i++ {
		var pk, sk, _ = cipher.GenerateDeterministicKeyPair([]byte(fmt.Sprint("c35", u.n, i)))
		u.pk, u.sk = append(u.pk, pk), append(u.sk, sk)
	}
	// other roots
	if u.src, err = skyobject.NewContainer(u.config()); err != nil {
		u.bad("open", "%v", err)
		return
	}
	defer u.src.Close()
	var sk cipher.SecKey
	u.srcPK, sk, _ = cipher.GenerateDeterministicKeyPair([]byte(fmt.Sprint("c35 src", u.n)))
	u.src.AddFeed(u.srcPK)
	for i := 0; i < 6; i++ {
		var rt, err = u.save(u.src, r, newRegistry(), u.srcPK, sk, uint64(1+i%2))
		if err != nil {
			u.bad("save", "%v", err)
			return
		}
		u.roots = append(u.roots, rt)
	}
	u.stop = make(chan struct{})
	var wg, rest sync.WaitGroup
	for i := 0; i < u.own; i++ {
		wg.Add(1)
		var r = rand.New(rand.NewSource(r.Int63()))
		go func(i int) {
			defer wg.Done()
			k.Guard("panic", u.cas, func() { u.owner(i, r) })
		}(i)
	}
	for i := 3 + r.Intn(5); i > 0; i-- {
		rest.Add(1)
		var r = rand.New(rand.NewSource(r.Int63()))
		go func() {
			defer rest.Done()
			k.Guard("panic", u.cas, func() {
				for !u.stopped() {
					u.act(r)
				}
			})
		}()
	}
	wg.Wait()
	close(u.stop)
	rest.Wait()
	u.end()
	k.Count("containers", 1)
	u.do("Close", func() { err = u.c.Close() })
	if err != nil {
		u.bad("close", "%v", err)
	}
}

func (u *users) stopped() bool {
	select {
	case <-u.stop:
		return true
	default:
		return false
	}
}

func (u *users) save(c *skyobject.Container, r *rand.Rand, reg *registry.Registry, pk cipher.PubKey, sk cipher.SecKey, nonce uint64) (rt *registry.Root, err error) {
	var up *skyobject.Unpack
	if up, err = c.Unpack(sk, reg); err != nil {
		return
	}
	defer up.Close()
	rt = &registry.Root{Pub: pk, Nonce: nonce, Reg: reg.Reference(), Time: time.Now().UnixNano()}
	for i := r.Intn(3); i >= 0; i-- {
		var t = Tree{Name: fmt.Sprint("tree", r.Intn(50)), B: []Leaf{{"x"}}}
		if err = t.L.SetValue(up, &Leaf{fmt.Sprint("leaf", r.Intn(20))}); err != nil {
			return
		}
		for j := r.Intn(8); j > 0; j-- {
			if err = t.R.AppendValues(up, Leaf{fmt.Sprint("leaf", r.Intn(30))}); err != nil {
				return
			}
		}
		var d registry.Dynamic
		var sch, _ = up.Registry().SchemaByName("c35.Tree")
		d.Schema = sch.Reference()
		if err = d.SetValue(up, &t); err != nil {
			return
		}
		rt.Refs = append(rt.Refs, d)
	}
	err = c.Save(up, rt)
	return
}

func walk(c *skyobject.Container, rt *registry.Root) (err error) {
	return c.Walk(rt, func(hash H, _ int) (bool, error) {
		if hash == (H{}) {
			return false, nil
		}
		var _, _, err = c.Get(hash, 0)
		return true, err
	})
}

// the feed of the user is changed by the user only, cleaners keep newest roots
func (u *users) owner(i int, r *rand.Rand) {
	var pk, sk = u.pk[i], u.sk[i]
	var amount = 25
	if u.dir != "" {
		amount = 10
	}
	var err error
	u.do("AddFeed", func() { err = u.c.AddFeed(pk) })
	if err != nil {
		u.bad("own", "AddFeed: %v", err)
		return
	}
	var last = make(map[uint64]*registry.Root)
	for s := 0; s < amount && !u.stopped(); s++ {
		var nonce = uint64(1 + r.Intn(3))
		switch r.Intn(8) {
		case 0:
			u.do("DelHead", func() { err = u.c.DelHead(pk, nonce) })
			if (err == nil) != (last[nonce] != nil) {
				u.bad("own", "DelHead (exists: %v): %v", last[nonce] != nil, err)
				return
			}
			delete(last, nonce)
		case 1:
			if r.Intn(3) == 0 {
				u.do("DelFeed", func() { err = u.c.DelFeed(pk) })
				if err == nil {
					u.do("AddFeed", func() { err = u.c.AddFeed(pk) })
				}
				if err != nil {
					u.bad("own", "DelFeed and AddFeed: %v", err)
					return
				}
				last = make(map[uint64]*registry.Root)
			}
		case 2:
			if x := last[nonce]; x != nil {
				u.do("DelRoot", func() { err = u.c.DelRoot(pk, nonce, x.Seq) })
				if err != nil {
					u.bad("own", "DelRoot: %v", err)
					return
				}
				delete(last, nonce)
				// previous ones, if any, are not watched
				u.do("DelHead", func() { err = u.c.DelHead(pk, nonce) })
				if err != nil && err != data.ErrNoSuchHead {
					u.bad("own", "DelHead: %v", err)
					return
				}
			}
		default:
			var reg = u.reg
			if r.Intn(4) == 0 {
				reg = newRegistry()
			}
			var rt *registry.Root
			u.do("Save", func() { rt, err = u.save(u.c, r, reg, pk, sk, nonce) })
			if err != nil {
				u.bad("own", "Save: %v", err)
				return
			}
			if x := last[nonce]; x != nil && rt.Seq != x.Seq+1 || x == nil && rt.Seq != 0 {
				u.bad("own", "saved root has seq %d, the last was %v", rt.Seq, x)
				return
			}
			last[nonce] = rt
			u.k.Count("own_saves", 1)
		}
		for nonce, x := range last {
			var rt *registry.Root
			u.do("LastRoot", func() { rt, err = u.c.LastRoot(pk, nonce) })
			if err != nil || rt.Hash != x.Hash {
				u.bad("own", "LastRoot: %v, must be %s, %v", rt, x, err)
				return
			}
			u.do("Walk", func() { err = walk(u.c, rt) })
			if err != nil {
				u.bad("own", "root %s is broken: %v", rt, err)
				return
			}
			u.k.Count("own_walks", 1)
		}
	}
}

// something that takes objects from the source
func (u *users) get(key H) (val []byte, err error) {
	val, _, err = u.src.Get(key, 0)
	return
}

type getter struct{ u *users }

func (g getter) Get(key H) ([]byte, error) { return g.u.get(key) }

func (u *users) root(r *rand.Rand) (rt *registry.Root) {
	var pk = u.any(r)
	rt, _ = u.c.LastRoot(pk, u.c.ActiveHead(pk))
	return
}

func (u *users) any(r *rand.Rand) cipher.PubKey {
	if r.Intn(6) == 0 {
		return u.srcPK
	}
	return u.pk[r.Intn(len(u.pk))]
}

func value(r *rand.Rand) (v []byte, h H) {
	v = []byte(fmt.Sprint("value", r.Intn(40)))
	return v, cipher.SumSHA256(v)
}

// any call
func (u *users) act(r *rand.Rand) {
	var c, pk = u.c, u.any(r)
	var shared = u.own + r.Intn(2)
	switch r.Intn(34) {
	case 0:
		u.do("Feeds", func() {
			var n int
			for _, pk := range c.Feeds() {
				n += int(pk[0])
			}
		})
	case 1:
		u.do("Heads", func() {
			var hs, _ = c.Heads(pk)
			for _, h := range hs {
				c.LastRootSeq(pk, h)
			}
		})
	case 2:
		u.do("Has", func() { c.HasFeed(pk); c.HasHead(pk, 1); c.ActiveHead(pk) })
	case 3, 4:
		u.do("Root", func() {
			if rt, err := c.LastRoot(pk, c.ActiveHead(pk)); err == nil {
				c.Root(pk, rt.Nonce, rt.Seq)
				c.RootByHash(rt.Hash)
				rt.Encode()
				_ = rt.String()
			}
		})
	case 5, 6:
		u.do("Walk", func() {
			if rt := u.root(r); rt != nil {
				walk(c, rt)
			}
		})
	case 7:
		u.do("Tree", func() {
			if rt := u.root(r); rt != nil {
				if reg, err := c.Registry(rt.Reg); err == nil {
					if p, err := c.Pack(rt, reg); err == nil {
						rt.Tree(p)
					}
				}
			}
		})
	case 8, 9:
		u.do("Registry", func() { u.registry(r) })
	case 10:
		u.do("Stat", func() {
			var s = c.Stat()
			for _, f := range s.Feeds {
				_ = len(f.Heads)
			}
			_ = fmt.Sprint(s)
		})
	case 11:
		var v, h = value(r)
		u.do("Set", func() { c.Set(h, v, 1) })
	case 12, 13:
		var _, h = value(r)
		u.do("Get", func() {
			if v, _, err := c.Get(h, 0); err == nil && cipher.SumSHA256(v) != h {
				u.bad("value", "object %s has another value", h.Hex()[:6])
			}
		})
	case 14:
		var _, h = value(r)
		u.do("Inc", func() { c.Inc(h, 0) })
	case 15, 16:
		var _, h = value(r)
		var ch = make(chan skyobject.Object, 1)
		u.do("Want", func() { c.Want(h, ch, 0) })
		time.Sleep(time.Duration(r.Intn(100)) * time.Microsecond)
		u.do("Unwant", func() { c.Unwant(h, ch) })
	case 17:
		var v, h = value(r)
		u.do("SetWanted", func() { c.SetWanted(h, v) })
	case 18:
		var _, h = value(r)
		u.do("RemoveUnused", func() { c.RemoveUnused(h); c.IsCached(h) })
	case 19:
		u.do("RemoveObjects", func() { cxoutils.RemoveObjects(c) })
		u.k.Count("cleanings", 1)
	case 20:
		u.do("RemoveRootObjects", func() { cxoutils.RemoveRootObjects(c, u.keep) })
	case 21:
		u.do("AddFeed", func() { c.AddFeed(u.pk[shared]) })
	case 22:
		if r.Intn(4) == 0 {
			u.do("DelFeed", func() { c.DelFeed(u.pk[shared]) })
		}
	case 23:
		u.do("AddHead", func() { c.AddHead(u.pk[shared], uint64(1+r.Intn(2))) })
	case 24:
		u.do("DelHead", func() { c.DelHead(u.pk[shared], uint64(1+r.Intn(2))) })
	case 25:
		u.do("DelRoot", func() {
			if rt, err := c.LastRoot(u.pk[shared], 1); err == nil {
				c.DelRoot(rt.Pub, rt.Nonce, rt.Seq)
			}
		})
	case 26:
		u.do("Save", func() { u.save(c, r, u.reg, u.pk[shared], u.sk[shared], uint64(1+r.Intn(2))) })
	case 27:
		u.do("Config", func() {
			_ = *c.Config()
			c.HumanCXDSPath()
			c.HumanIdxDBPath()
		})
	case 28:
		u.do("DB", func() {
			var db = c.DB()
			db.CXDS().Amount()
			db.CXDS().Volume()
			db.CXDS().Iterate(func(H, uint32, []byte) error { return nil })
			db.IdxDB().Tx(func(fs data.Feeds) error { return fs.Iterate(func(cipher.PubKey) error { return nil }) })
		})
	case 29:
		u.do("Unpack", func() {
			if up, err := c.Unpack(u.sk[shared], u.reg); err == nil {
				var x registry.Refs
				for i := 0; i < 5; i++ {
					x.AppendValues(up, Leaf{fmt.Sprint("unpack", r.Intn(10))})
				}
				up.Close()
			}
		})
	case 30, 31, 32:
		u.fill(r)
	default:
		u.do("Preview", func() {
			var x = *u.roots[r.Intn(len(u.roots))]
			if rt, err := c.PreviewRoot(x.Pub, x.Sig, x.Encode()); err == nil {
				if p, err := c.Preview(rt, getter{u}); err == nil {
					rt.Tree(p)
					u.k.Count("previews", 1)
				}
			}
		})
	}
}

// objects of a registry are shared
func (u *users) registry(r *rand.Rand) {
	var rt = u.root(r)
	if rt == nil {
		return
	}
	var reg, err = u.c.Registry(rt.Reg)
	if err != nil {
		return
	}
	u.k.Count("registries", 1)
	if r.Intn(4) == 0 {
		u.c.AddRegistryToCache(reg)
	}
	reg.Encode()
	reg.Reference()
	reg.Types()
	for _, name := range []string{"c35.Leaf", "c35.Tree"} {
		if s, err := reg.SchemaByName(name); err == nil {
			look(reg, s, 0)
		}
	}
}

func look(reg *registry.Registry, s registry.Schema, d int) {
	if s == nil || d > 4 {
		return
	}
	reg.SchemaByReference(s.Reference())
	s.Encode()
	_ = s.String()
	s.HasReferences()
	s.IsReference()
	s.IsRegistered()
	s.ReferenceType()
	s.Name()
	s.RawName()
	s.Len()
	if s.Kind() == reflect.Slice || s.Kind() == reflect.Array || s.IsReference() && s.Elem() != nil {
		look(reg, s.Elem(), d+1)
	}
	for _, f := range s.Fields() {
		f.Encode()
		_ = f.String()
		f.Name()
		f.Tag()
		look(reg, f.Schema(), d+1)
	}
}

// receive and fill
func (u *users) fill(r *rand.Rand) {
	var c = u.c
	var x = u.roots[r.Intn(len(u.roots))]
	u.do("AddFeed", func() { c.AddFeed(u.srcPK) })
	if r.Intn(6) == 0 {
		u.do("DelFeed", func() { c.DelFeed(u.srcPK) })
		return
	}
	var rt *registry.Root
	var err error
	u.do("ReceivedRoot", func() { rt, err = c.ReceivedRoot(x.Pub, x.Sig, x.Encode()) })
	if err != nil || rt.IsFull {
		return
	}
	var rq = make(chan H, r.Intn(3))
	var f = c.Fill(rt, rq, 1+r.Intn(4))
	var done, end = make(chan struct{}), make(chan struct{})
	var seed = r.Int63()
	go func() {
		defer close(end)
		var r = rand.New(rand.NewSource(seed))
		for {
			select {
			case <-done:
				return
			case h := <-rq:
				if v, err := u.get(h); err == nil && r.Intn(60) > 0 {
					c.SetWanted(h, v)
				} else {
					f.Fail(errors.New("not found"))
				}
			}
		}
	}()
	if r.Intn(4) == 0 {
		var d = time.Duration(r.Intn(2000)) * time.Microsecond
		time.AfterFunc(d, f.Close)
	}
	u.do("Fill", func() { f.Run() })
	close(done)
	<-end
	f.Close()
	u.k.Count("fills", 1)
}
