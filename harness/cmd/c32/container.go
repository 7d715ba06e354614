package main

import (
	"bytes"
	"errors"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/cxstore"
	"verif/kit"
	"verif/nodem"

	"github.com/skycoin/cxo/cxoutils"
	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/data/cxds"
	"github.com/skycoin/cxo/data/idxdb"
	"github.com/skycoin/cxo/node"
	"github.com/skycoin/cxo/skyobject"
	"github.com/skycoin/cxo/skyobject/registry"
	"github.com/skycoin/skycoin/src/cipher"
)

// A Leaf object
type Leaf struct{ S string }

// A Tree object
type Tree struct {
	Name string
	L    registry.Ref  `skyobject:"schema=c32.Leaf"`
	R    registry.Refs `skyobject:"schema=c32.Leaf"`
}

var reg = registry.NewRegistry(func(r *registry.Reg) {
	r.Register("c32.Leaf", Leaf{})
	r.Register("c32.Tree", Tree{})
})

// container closed under concurrent use
func (t *test) container(name string) {
	var r = t.r
	var dir = filepath.Join(t.dir, strings.ReplaceAll(name, " ", "_"))
	if err := os.Mkdir(dir, 0700); err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	var conf = skyobject.NewConfig()
	var kind = r.Intn(3)
	var st *cxstore.Store
	var reopen = func() (err error) {
		switch kind {
		case 0:
			conf.InMemoryDB, conf.DataDir = false, dir
		case 1:
			conf.InMemoryDB, conf.DataDir = true, ""
		default:
			if st == nil {
				st = cxstore.New()
			} else {
				st.Reopen()
			}
			var idx data.IdxDB
			if idx, err = idxdb.NewDriveIdxDB(filepath.Join(dir, "idx")); err == nil {
				conf.DB = data.NewDB(st, idx)
			}
		}
		return
	}
	if err := reopen(); err != nil {
		panic(err)
	}
	if r.Intn(3) == 0 {
		conf.CacheMaxAmount = r.Intn(20)
	}
	var c, err = skyobject.NewContainer(conf)
	if err != nil {
		t.k.Violate("open", name, "%v", err)
		return
	}
	var pk, sk, _ = cipher.GenerateDeterministicKeyPair([]byte(name))
	c.AddFeed(pk)

	var mx sync.Mutex
	type saved struct {
		r    *registry.Root
		objs map[nodem.H][]byte
	}
	var all []saved
	var gone = make(map[string]bool) // nonce/seq, they can be used again after that
	var at = func(x *registry.Root) string { return fmt.Sprint(x.Nonce, "/", x.Seq) }
	var keys []nodem.H
	var stop = make(chan struct{})
	var closing int32
	var inFlight int32
	var wg sync.WaitGroup
	var loop = func(what string, f func(i int)) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; ; i++ {
				select {
				case <-stop:
					return
				default:
				}
				atomic.AddInt32(&inFlight, 1)
				var ok = t.k.Guard("panic "+what, name, func() { f(i) })
				atomic.AddInt32(&inFlight, -1)
				t.k.Count("container_calls", 1)
				if atomic.LoadInt32(&closing) == 2 {
					t.k.Count("container_late_calls", 1)
				}
				if !ok {
					return
				}
				if i%3 == 0 {
					time.Sleep(time.Duration(i%7) * 100 * time.Microsecond)
				}
			}
		}()
	}
	var pick = func(i int) (h nodem.H) {
		mx.Lock()
		defer mx.Unlock()
		if len(keys) > 0 {
			h = keys[(i*7919)%len(keys)]
		}
		return
	}
	for g := 0; g < 1+r.Intn(3); g++ {
		var g = g
		loop("save", func(i int) {
			var up, err = c.Unpack(sk, reg)
			if err != nil {
				return
			}
			if i%5 > 0 {
				defer up.Close()
			}
			var s = saved{objs: make(map[nodem.H][]byte)}
			var rt = &registry.Root{Pub: pk, Nonce: uint64(g + 1), Reg: reg.Reference()}
			for j := 0; j <= i%3; j++ {
				var tr = Tree{Name: fmt.Sprint("tree", i, j)}
				if err = tr.L.SetValue(up, &Leaf{fmt.Sprint("leaf", i%20)}); err != nil {
					return
				}
				for x := 0; x < i%6; x++ {
					if err = tr.R.AppendValues(up, Leaf{fmt.Sprint("leaf", i*x)}); err != nil {
						return
					}
				}
				var d registry.Dynamic
				var sch, _ = up.Registry().SchemaByName("c32.Tree")
				d.Schema = sch.Reference()
				if err = d.SetValue(up, &tr); err != nil {
					return
				}
				rt.Refs = append(rt.Refs, d)
			}
			if err = c.Save(up, rt); err != nil {
				if atomic.LoadInt32(&closing) == 0 && atomic.LoadInt32(&closing) == 0 {
					t.k.Violate("save", name, "%v", err)
				}
				return
			}
			s.r = rt
			c.Walk(rt, func(h nodem.H, _ int) (bool, error) {
				if v, _, err := c.Get(h, 0); err == nil {
					s.objs[h] = append([]byte(nil), v...)
				}
				return true, nil
			})
			mx.Lock()
			all = append(all, s)
			for h := range s.objs {
				keys = append(keys, h)
			}
			mx.Unlock()
			if i%7 == 0 && i > 0 {
				mx.Lock()
				var x = all[i%len(all)].r
				gone[at(x)] = true
				mx.Unlock()
				c.DelRoot(x.Pub, x.Nonce, x.Seq)
			}
		})
	}
	for g := 0; g < 1+r.Intn(3); g++ {
		loop("read", func(i int) {
			c.Get(pick(i), 0)
			if x, err := c.LastRoot(pk, c.ActiveHead(pk)); err == nil {
				c.Walk(x, func(nodem.H, int) (bool, error) { return true, nil })
				if p, err := c.Pack(x, nil); err == nil {
					x.Tree(p)
				}
			}
			c.Stat()
			c.Feeds()
			c.Heads(pk)
		})
	}
	if r.Intn(2) == 0 {
		loop("inc", func(i int) {
			var h = pick(i)
			if _, err := c.Inc(h, 1); err == nil {
				c.Inc(h, -1)
			}
		})
	}
	if r.Intn(2) == 0 {
		loop("want", func(i int) {
			var ch = make(chan skyobject.Object, 1)
			var h = cipher.SumSHA256([]byte(fmt.Sprint("want", i)))
			if c.Want(h, ch, 1) == nil {
				if i%3 == 0 {
					c.SetWanted(h, []byte(fmt.Sprint("want", i)))
					c.Finc(h, -1)
				} else if i%3 == 1 {
					c.Unwant(h, ch)
				}
			}
		})
	}
	if r.Intn(2) == 0 {
		loop("clean", func(i int) {
			if i%4 == 0 {
				cxoutils.RemoveObjects(c)
			}
			time.Sleep(time.Millisecond)
		})
	}
	if r.Intn(2) == 0 {
		// the database is closed after the iteration only
		loop("iterate", func(i int) {
			var n, sum int
			c.DB().CXDS().Iterate(func(_ cipher.SHA256, _ uint32, val []byte) error {
				if n++; n > 10 {
					return data.ErrStopIteration
				}
				time.Sleep(time.Duration(i%4) * 200 * time.Microsecond)
				for _, b := range val {
					sum += int(b)
				}
				return nil
			})
		})
	}
	time.Sleep(time.Duration(r.Intn(80)) * time.Millisecond)
	var n = 1 + r.Intn(3)
	var busy = atomic.LoadInt32(&inFlight)
	atomic.StoreInt32(&closing, 1)
	var errs = make(chan error, n)
	for i := 0; i < n; i++ {
		go func() { t.k.Guard("panic close", name, func() { errs <- c.Close() }) }()
	}
	for i := 0; i < n; i++ {
		select {
		case err := <-errs:
			if err != nil {
				t.k.Violate("container-close", name, "Close of a container (kind %d) by %d goroutines: %v", kind, n, err)
			}
		case <-time.After(time.Minute):
			t.k.Violate("container-close-hang", name, "Close of a container doesn't return\n%s", kit.Stacks())
			return
		}
	}
	atomic.StoreInt32(&closing, 2)
	time.Sleep(time.Duration(r.Intn(10)) * time.Millisecond)
	close(stop)
	var done = make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(30 * time.Second):
		t.k.Violate("container-blocked", name, "calls don't return after the container was closed\n%s", kit.Stacks())
		return
	}
	if err := c.Close(); err != nil {
		t.k.Violate("container-close", name, "one more Close of a container (kind %d): %v", kind, err)
	}
	t.k.Count("containers", 1)
	t.k.Case(busy > 0, fmt.Sprint("container ", kind, n, busy, len(all)))
	if kind == 1 {
		return
	}
	if err = reopen(); err == nil {
		c, err = skyobject.NewContainer(conf)
	}
	if err != nil {
		t.k.Violate("container-reopen", name, "%v", err)
		return
	}
	defer c.Close()
	for _, s := range all {
		if gone[at(s.r)] {
			continue
		}
		if x, err := c.Root(s.r.Pub, s.r.Nonce, s.r.Seq); err != nil || x.Hash != s.r.Hash {
			t.k.Violate("container-lost", name, "root %d/%d was saved before the container (kind %d) was closed, and is lost: %v", s.r.Nonce, s.r.Seq, kind, err)
			return
		}
		for h, v := range s.objs {
			if g, rc, err := c.Get(h, 0); err != nil || rc == 0 || !bytes.Equal(g, v) {
				t.k.Violate("container-lost-object", name, "object %s of a root saved before the container (kind %d) was closed is lost: %d %v", h.Hex()[:6], kind, rc, err)
				return
			}
		}
		t.k.Count("container_roots", 1)
	}
	if _, what := listed(c); what != "" {
		t.k.Violate("container-partial", name, "after closing (kind %d): %s", kind, what)
	}
}

// constructors that fail release everything
func (t *test) failing(name string) {
	var r = t.r
	var dir = filepath.Join(t.dir, strings.ReplaceAll(name, " ", "_"))
	defer os.RemoveAll(dir)
	var conf = func() (c *node.Config) {
		c = nodem.NewConfig()
		c.Config.InMemoryDB, c.Config.DataDir = false, dir
		return
	}
	var pk, sk, _ = cipher.GenerateDeterministicKeyPair([]byte(name))
	var rt = &registry.Root{Pub: pk, Nonce: 1, Reg: reg.Reference()}
	var c, err = skyobject.NewContainer(conf().Config)
	if err != nil {
		t.k.Violate("open", name, "%v", err)
		return
	}
	c.AddFeed(pk)
	var up, _ = c.Unpack(sk, reg)
	var d registry.Dynamic
	var sch, _ = up.Registry().SchemaByName("c32.Leaf")
	d.Schema = sch.Reference()
	d.SetValue(up, &Leaf{strings.Repeat("big", 1000)})
	rt.Refs = append(rt.Refs, d)
	if err = c.Save(up, rt); err == nil {
		err = c.Close()
	}
	if err != nil {
		t.k.Violate("open", name, "%v", err)
		return
	}
	var good = func(what string) bool {
		var c, err = skyobject.NewContainer(conf().Config)
		if err == nil {
			defer c.Close()
			var x *registry.Root
			if x, err = c.Root(pk, 1, 0); err == nil {
				err = c.Walk(x, func(h nodem.H, _ int) (bool, error) { var _, _, err = c.Get(h, 0); return true, err })
			}
		}
		if err != nil {
			t.k.Violate("failing-reopen", name, "the database can't be used after a constructor failed (%s): %v", what, err)
		}
		return err == nil
	}
	var busyTCP, _ = net.Listen("tcp", "127.0.0.1:0")
	defer busyTCP.Close()
	var busyUDP, _ = net.ListenPacket("udp", "127.0.0.1:0")
	defer busyUDP.Close()
	type fail struct {
		name string
		f    func() error
	}
	var tryNode = func(c *node.Config) error {
		var n, err = node.NewNode(c)
		if err == nil {
			n.Close()
		}
		return err
	}
	var fails = []fail{
		{"busy TCP address", func() error { var c = conf(); c.TCP.Listen = busyTCP.Addr().String(); return tryNode(c) }},
		{"busy UDP address", func() error { var c = conf(); c.UDP.Listen = busyUDP.LocalAddr().String(); return tryNode(c) }},
		{"busy RPC address", func() error {
			var c = conf()
			c.RPC = busyTCP.Addr().String()
			c.UDP.Listen = "127.0.0.1:0"
			return tryNode(c)
		}},
		{"wrong address", func() error { var c = conf(); c.TCP.Listen = "not an address"; return tryNode(c) }},
		{"wrong secret key", func() error {
			var c = conf()
			for i := range c.SecKey {
				c.SecKey[i] = 0xff
			}
			return tryNode(c)
		}},
		{"wrong config", func() error { var c = conf(); c.Config.MaxObjectSize = -1; return tryNode(c) }},
		{"too large objects", func() error {
			var c = conf()
			c.Config.CheckSizes, c.Config.MaxObjectSize = true, 1000
			return tryNode(c)
		}},
		{"too large objects of a container", func() error {
			var c = conf().Config
			c.CheckSizes, c.MaxObjectSize = true, 1000
			var x, err = skyobject.NewContainer(c)
			if err == nil {
				x.Close()
			}
			return err
		}},
		{"too large objects in memory", func() error {
			var c = conf().Config
			var db = data.NewDB(cxds.NewMemoryCXDS(), idxdb.NewMemeoryDB())
			var v = make([]byte, 3000)
			db.CXDS().Set(cipher.SumSHA256(v), v, 1)
			c.DB, c.CheckSizes, c.MaxObjectSize = db, true, 1000
			var x, err = skyobject.NewContainer(c)
			if err == nil {
				x.Close()
			}
			return err
		}},
		{"failing store", func() error {
			var c = conf().Config
			var st = cxstore.New()
			var v = make([]byte, 3000)
			st.Set(cipher.SumSHA256(v), v, 1)
			st.Fail = func(string, cipher.SHA256) error { return errors.New("failing") }
			c.DB, c.CheckSizes, c.MaxObjectSize = data.NewDB(st, idxdb.NewMemeoryDB()), true, 1000
			var x, err = skyobject.NewContainer(c)
			if err == nil {
				x.Close()
			}
			return err
		}},
		{"opened database", func() error {
			var a, err = skyobject.NewContainer(conf().Config)
			if err != nil {
				return nil
			}
			defer a.Close()
			return tryNode(conf())
		}},
		{"wrong index", func() error {
			return t.swap(filepath.Join(dir, skyobject.IdxDB), func() error { return tryNode(conf()) })
		}},
		{"wrong objects", func() error {
			return t.swap(filepath.Join(dir, skyobject.CXDS), func() error { return tryNode(conf()) })
		}},
	}
	for _, i := range r.Perm(len(fails)) {
		var f = fails[i]
		var err error
		var done = make(chan struct{})
		go func() {
			defer close(done)
			t.k.Guard("panic failing "+f.name, name, func() { err = f.f() })
		}()
		select {
		case <-done:
		case <-time.After(time.Minute):
			t.k.Violate("failing-hang", name, "a constructor doesn't return (%s)\n%s", f.name, kit.Stacks())
			return
		}
		if err == nil {
			t.k.Violate("failing-no-error", name, "a constructor returns no error (%s)", f.name)
			return
		}
		t.k.Count("failed_constructors", 1)
		if !good(f.name) {
			return
		}
	}
	t.k.Case(true, name)
}

// a file replaced by other one
func (t *test) swap(file string, f func() error) (err error) {
	var good, e = os.ReadFile(file)
	if e != nil {
		panic(e)
	}
	os.WriteFile(file, bytes.Repeat([]byte("garbage"), 5000), 0644)
	err = f()
	os.WriteFile(file, good, 0644)
	return
}
