// Package cxm is a sequential model of CXDS with a differential driver.
package cxm

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"

	"github.com/skycoin/skycoin/src/cipher"

	"github.com/skycoin/cxo/data"
	"github.com/skycoin/cxo/data/cxds"
)

// Obj of the model
type Obj struct {
	RC  uint32
	Val []byte
}

// Model of CXDS
type Model map[cipher.SHA256]Obj

// Clone the Model
func (m Model) Clone() (n Model) {
	n = make(Model)
	for k, v := range m {
		n[k] = v
	}
	return
}

func add(rc uint32, inc int) uint32 {
	if inc < 0 {
		if uint32(-inc) >= rc {
			return 0
		}
		return rc - uint32(-inc)
	}
	return rc + uint32(inc)
}

// Stat computed from scratch
func (m Model) Stat() (aa, au, va, vu int) {
	for _, o := range m {
		aa++
		va += len(o.Val)
		if o.RC > 0 {
			au++
			vu += len(o.Val)
		}
	}
	return
}

func (m Model) String() string {
	var ss []string
	for k, o := range m {
		ss = append(ss, fmt.Sprintf("%x:{rc:%d len:%d}", k[:4], o.RC, len(o.Val)))
	}
	sort.Strings(ss)
	return "{" + strings.Join(ss, " ") + "}"
}

// Pool of keys and values; keys are hashes of the values, some are
// edge ones
type Pool struct {
	Keys []cipher.SHA256
	Vals [][]byte
}

// NewPool of n objects
func NewPool(r *rand.Rand, n int) (p *Pool) {
	p = new(Pool)
	for i := 0; i < n; i++ {
		var ln = 1 + r.Intn(40)
		switch r.Intn(12) {
		case 0:
			ln = 1
		case 1:
			ln = 1000 + r.Intn(9000)
		}
		var val = make([]byte, ln)
		r.Read(val)
		if r.Intn(10) == 0 {
			val = make([]byte, ln) // zeroes
		}
		var key = cipher.SumSHA256(append(val, byte(i)))
		switch r.Intn(15) {
		case 0: // carry
			for j := 31; j > 31-1-r.Intn(20); j-- {
				key[j] = 0xff
			}
			key[0] &= 0x7f
		case 1: // neighbours
			if i > 0 {
				key = p.Keys[i-1]
				key[31]++
			}
		case 2:
			key = cipher.SHA256{}
			key[31-r.Intn(32)] = byte(i + 1)
		}
		for _, k := range p.Keys {
			if k == key {
				key = cipher.SumSHA256([]byte(fmt.Sprint(i, val)))
			}
		}
		p.Keys = append(p.Keys, key)
		p.Vals = append(p.Vals, val)
	}
	return
}

var errBreak = errors.New("break")

// Step performs a random operation on the db and on the model and compares
// results. It returns description and mismatch if any
func Step(r *rand.Rand, p *Pool, m Model, db data.CXDS) (op, bad string) {
	var (
		i   = r.Intn(len(p.Keys))
		key = p.Keys[i]
		val = p.Vals[i]
		inc = r.Intn(9) - 4
	)
	if r.Intn(20) == 0 {
		inc *= 100000
	}
	var o, ok = m[key]
	switch x := r.Intn(100); {
	case x < 30: // set
		if inc <= 0 {
			inc = 1 - inc
		}
		op = fmt.Sprintf("Set(%d,%d)", i, inc)
		if r.Intn(40) == 0 {
			val = val[:0]
			op += "blank"
		}
		if r.Intn(40) == 0 {
			inc = -r.Intn(2)
			op = fmt.Sprintf("Set(%d,%d)", i, inc)
			var pan = func() (p bool) {
				defer func() { p = recover() != nil }()
				db.Set(key, val, inc)
				return
			}()
			if !pan {
				bad = "no panic for not positive inc"
			}
			return
		}
		var rc, err = db.Set(key, val, inc)
		if len(val) == 0 {
			if err != cxds.ErrEmptyValue {
				bad = fmt.Sprintf("blank value: %v", err)
			}
			return
		}
		if err != nil {
			return op, fmt.Sprintf("error: %v", err)
		}
		m[key] = Obj{add(o.RC, inc), val}
		if rc != m[key].RC {
			bad = fmt.Sprintf("returned rc %d, must be %d", rc, m[key].RC)
		}
	case x < 55: // get
		if r.Intn(2) == 0 {
			inc = 0
		}
		op = fmt.Sprintf("Get(%d,%d)", i, inc)
		var v, rc, err = db.Get(key, inc)
		if !ok {
			if err != data.ErrNotFound || v != nil || rc != 0 {
				bad = fmt.Sprintf("missing object: %v %v %v", v, rc, err)
			}
			return
		}
		if err != nil {
			return op, fmt.Sprintf("error: %v", err)
		}
		o.RC = add(o.RC, inc)
		m[key] = o
		if rc != o.RC {
			bad = fmt.Sprintf("returned rc %d, must be %d", rc, o.RC)
		} else if !bytes.Equal(v, o.Val) {
			bad = fmt.Sprintf("wrong value of %d bytes", len(v))
		}
	case x < 85: // inc
		op = fmt.Sprintf("Inc(%d,%d)", i, inc)
		var rc, err = db.Inc(key, inc)
		if !ok {
			if err != data.ErrNotFound || rc != 0 {
				bad = fmt.Sprintf("missing object: %v %v", rc, err)
			}
			return
		}
		if err != nil {
			return op, fmt.Sprintf("error: %v", err)
		}
		o.RC = add(o.RC, inc)
		m[key] = o
		if rc != o.RC {
			bad = fmt.Sprintf("returned rc %d, must be %d", rc, o.RC)
		}
	case x < 92: // del
		op = fmt.Sprintf("Del(%d)", i)
		delete(m, key)
		if err := db.Del(key); err != nil {
			bad = fmt.Sprintf("error: %v", err)
		}
	case x < 96: // iterate
		var (
			stop = -1
			n    int
			ret  error
		)
		if len(m) > 0 && r.Intn(2) == 0 {
			stop = r.Intn(len(m))
			if ret = data.ErrStopIteration; r.Intn(2) == 0 {
				ret = errBreak
			}
		}
		op = fmt.Sprintf("Iterate(stop:%d,%v)", stop, ret)
		var seen = make(Model)
		var err = db.Iterate(func(k cipher.SHA256, rc uint32, v []byte) error {
			if _, ok := seen[k]; ok {
				bad = fmt.Sprintf("%x is visited twice", k[:4])
			}
			seen[k] = Obj{rc, append([]byte{}, v...)}
			if n++; n-1 == stop {
				return ret
			} else if stop >= 0 && n-1 > stop {
				bad = "is not stopped"
			}
			return nil
		})
		if bad != "" {
			return
		}
		if ret == data.ErrStopIteration {
			ret = nil
		}
		if err != ret {
			return op, fmt.Sprintf("returned %v, must be %v", err, ret)
		}
		bad = subset(seen, m, stop < 0)
	default: // iterate deleting
		var (
			mod  = 1 + r.Intn(4)
			stop = -1
			n    int
			ret  error
			seen = make(Model)
			dels []cipher.SHA256
		)
		if len(m) > 0 && r.Intn(3) == 0 {
			stop = r.Intn(len(m))
			ret = data.ErrStopIteration
		}
		op = fmt.Sprintf("IterateDel(mod:%d,stop:%d)", mod, stop)
		var err = db.IterateDel(func(k cipher.SHA256, rc uint32, v []byte) (
			del bool, err error) {
			if _, ok := seen[k]; ok {
				bad = fmt.Sprintf("%x is visited twice", k[:4])
				return false, errBreak
			}
			seen[k] = Obj{rc, append([]byte{}, v...)}
			if n++; n-1 == stop {
				return false, ret
			}
			if k[5]%4 < byte(mod) {
				dels = append(dels, k)
				return true, nil
			}
			return
		})
		if bad != "" {
			return
		}
		if err != nil {
			return op, fmt.Sprintf("error: %v", err)
		}
		bad = subset(seen, m, stop < 0)
		for _, k := range dels {
			delete(m, k)
		}
	}
	return
}

func subset(seen, m Model, full bool) string {
	for k, s := range seen {
		var o, ok = m[k]
		if !ok {
			return fmt.Sprintf("visits %x that doesn't exist", k[:4])
		}
		if o.RC != s.RC || !bytes.Equal(o.Val, s.Val) {
			return fmt.Sprintf("visits %x with rc %d, %d bytes; must be rc %d, "+
				"%d bytes", k[:4], s.RC, len(s.Val), o.RC, len(o.Val))
		}
	}
	if full && len(seen) != len(m) {
		return fmt.Sprintf("visits %d of %d objects", len(seen), len(m))
	}
	return ""
}

// Content of the db
func Content(db data.CXDS) (m Model, err error) {
	m = make(Model)
	err = db.Iterate(func(k cipher.SHA256, rc uint32, v []byte) error {
		m[k] = Obj{rc, append([]byte{}, v...)}
		return nil
	})
	return
}

// Compare content of the db with the model
func Compare(db data.CXDS, m Model) string {
	var c, err = Content(db)
	if err != nil {
		return err.Error()
	}
	if s := subset(c, m, true); s != "" {
		return s
	}
	for k, o := range m {
		var v, rc, err = db.Get(k, 0)
		if err != nil {
			return fmt.Sprintf("get %x: %v", k[:4], err)
		}
		if rc != o.RC || !bytes.Equal(v, o.Val) {
			return fmt.Sprintf("get %x: rc %d, must be %d", k[:4], rc, o.RC)
		}
	}
	return ""
}

// Stats compares statistics of the db with the stat of the model
func Stats(db data.CXDS, m Model) string {
	var (
		aa, au         = db.Amount()
		va, vu         = db.Volume()
		ma, mu, wa, wu = m.Stat()
	)
	if aa != ma || au != mu || va != wa || vu != wu {
		return fmt.Sprintf("amount %d/%d volume %d/%d, the content is "+
			"amount %d/%d volume %d/%d", aa, au, va, vu, ma, mu, wa, wu)
	}
	return ""
}

// A Store that can be reopened
type Store struct {
	data.CXDS
	Path string
}

// Open memory store (blank path) or on-drive one
func Open(path string) (s *Store, err error) {
	s = &Store{Path: path}
	if path == "" {
		s.CXDS = cxds.NewMemoryCXDS()
		return
	}
	s.CXDS, err = cxds.NewDriveCXDS(path)
	return
}

// Reopen the on-drive one
func (s *Store) Reopen() (err error) {
	if s.Path == "" {
		return
	}
	if err = s.CXDS.Close(); err != nil {
		return
	}
	s.CXDS, err = cxds.NewDriveCXDS(s.Path)
	return
}

// Destroy the Store
func (s *Store) Destroy() {
	if s.CXDS != nil {
		s.CXDS.Close()
	}
	if s.Path != "" {
		os.Remove(s.Path)
	}
}
