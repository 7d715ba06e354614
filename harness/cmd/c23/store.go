package main

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"sync"

	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/data/cxds"
	"github.com/skycoin/cxo/data/idxdb"
	"github.com/skycoin/skycoin/src/cipher"
)

// gate lets copy the files when no transaction is in progress, a copy is what a dead process leaves
type gate struct {
	mx   sync.Mutex
	busy int
	dir  string
	hook func(op string) // before and after every writing, under the lock, if no transaction is in progress
}

func (g *gate) do(op string, f func()) {
	g.mx.Lock()
	if g.busy == 0 && g.hook != nil {
		g.hook("before " + op)
	}
	g.busy++
	g.mx.Unlock()
	defer func() {
		g.mx.Lock()
		if g.busy--; g.busy == 0 && g.hook != nil {
			g.hook("after " + op)
		}
		g.mx.Unlock()
	}()
	f()
}

func (g *gate) set(hook func(op string)) {
	g.mx.Lock()
	g.hook = hook
	g.mx.Unlock()
}

func copyFiles(from, to string) {
	for _, n := range []string{"cxds", "idx"} {
		var b, err = ioutil.ReadFile(filepath.Join(from, n))
		if err == nil {
			err = ioutil.WriteFile(filepath.Join(to, n), b, 0600)
		}
		if err != nil && !os.IsNotExist(err) {
			panic(err)
		}
	}
}

type safeCloser interface {
	IsSafeClosed() bool
	SafeClose() error
}

// objects are opened under the gate
type objects struct {
	data.CXDS
	g *gate
}

func (o *objects) Get(k cipher.SHA256, inc int) (v []byte, rc uint32, err error) {
	if inc == 0 {
		return o.CXDS.Get(k, inc)
	}
	o.g.do("get", func() { v, rc, err = o.CXDS.Get(k, inc) })
	return
}

func (o *objects) Set(k cipher.SHA256, v []byte, inc int) (rc uint32, err error) {
	o.g.do("set", func() { rc, err = o.CXDS.Set(k, v, inc) })
	return
}

func (o *objects) Inc(k cipher.SHA256, inc int) (rc uint32, err error) {
	if inc == 0 {
		return o.CXDS.Inc(k, inc)
	}
	o.g.do("inc", func() { rc, err = o.CXDS.Inc(k, inc) })
	return
}

func (o *objects) Del(k cipher.SHA256) (err error) {
	o.g.do("del", func() { err = o.CXDS.Del(k) })
	return
}

func (o *objects) IterateDel(f data.IterateObjectsDelFunc) (err error) {
	o.g.do("iteratedel", func() { err = o.CXDS.IterateDel(f) })
	return
}

func (o *objects) Close() (err error) {
	o.g.do("close", func() { err = o.CXDS.Close() })
	return
}

func (o *objects) IsSafeClosed() bool {
	if s, ok := o.CXDS.(safeCloser); ok {
		return s.IsSafeClosed()
	}
	return true
}

func (o *objects) SafeClose() (err error) {
	var s, ok = o.CXDS.(safeCloser)
	if !ok {
		return o.Close()
	}
	o.g.do("safe close", func() { err = s.SafeClose() })
	return
}

type index struct {
	data.IdxDB
	g *gate
}

func (i *index) Tx(f func(data.Feeds) error) (err error) {
	i.g.do("tx", func() { err = i.IdxDB.Tx(f) })
	return
}

func (i *index) Close() (err error) {
	i.g.do("close idx", func() { err = i.IdxDB.Close() })
	return
}

func (g *gate) open() (db *data.DB, err error) {
	var cx data.CXDS
	var ix data.IdxDB
	g.do("open cxds", func() { cx, err = cxds.NewDriveCXDS(filepath.Join(g.dir, "cxds")) })
	if err != nil {
		return nil, fmt.Errorf("objects: %v", err)
	}
	g.do("open idx", func() { ix, err = idxdb.NewDriveIdxDB(filepath.Join(g.dir, "idx")) })
	if err != nil {
		cx.Close()
		return nil, fmt.Errorf("index: %v", err)
	}
	return data.NewDB(&objects{cx, g}, &index{ix, g}), nil
}
