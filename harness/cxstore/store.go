// Package cxstore is an instrumented object store: a plain map that follows
// the documentation of data.CXDS, counts accesses, injects failures and can
// be looked into after it was closed.
package cxstore

import (
	"errors"
	"sort"
	"sync"

	"github.com/skycoin/cxo/data"
	"github.com/skycoin/skycoin/src/cipher"
)

// Obj is stored object
type Obj struct {
	Val []byte
	RC  uint32
}

// ErrClosed of a closed store
var ErrClosed = errors.New("cxstore: closed")

// Store implements data.CXDS
type Store struct {
	mx     sync.Mutex
	m      map[cipher.SHA256]*Obj
	closed bool

	reads map[cipher.SHA256]int // accesses by key
	Late  int                   // calls after Close

	// Fail if it's not nil
	Fail func(op string, key cipher.SHA256) error
	// Step is called outside of the lock before every access
	Step func(op string, key cipher.SHA256)
}

// New Store
func New() *Store {
	return &Store{m: make(map[cipher.SHA256]*Obj), reads: make(map[cipher.SHA256]int)}
}

func (s *Store) enter(op string, key cipher.SHA256) (err error) {
	if s.Step != nil {
		s.Step(op, key)
	}
	s.mx.Lock()
	s.reads[key]++
	if s.closed {
		s.Late++
		return ErrClosed
	}
	if s.Fail != nil {
		err = s.Fail(op, key)
	}
	return
}

func (o *Obj) inc(n int) {
	switch {
	case n >= 0:
		o.RC += uint32(n)
	case uint32(-n) >= o.RC:
		o.RC = 0
	default:
		o.RC -= uint32(-n)
	}
}

// Get object
func (s *Store) Get(key cipher.SHA256, inc int) (val []byte, rc uint32, err error) {
	err = s.enter("get", key)
	defer s.mx.Unlock()
	if err != nil {
		return
	}
	var o = s.m[key]
	if o == nil {
		return nil, 0, data.ErrNotFound
	}
	o.inc(inc)
	return append([]byte(nil), o.Val...), o.RC, nil
}

// Set object
func (s *Store) Set(key cipher.SHA256, val []byte, inc int) (rc uint32, err error) {
	if inc <= 0 {
		panic("cxstore: wrong inc of Set")
	}
	if len(val) == 0 {
		return 0, errors.New("cxstore: empty value")
	}
	err = s.enter("set", key)
	defer s.mx.Unlock()
	if err != nil {
		return
	}
	var o = s.m[key]
	if o == nil {
		o = &Obj{Val: append([]byte(nil), val...)}
		s.m[key] = o
	}
	o.inc(inc)
	return o.RC, nil
}

// Inc counter
func (s *Store) Inc(key cipher.SHA256, inc int) (rc uint32, err error) {
	err = s.enter("inc", key)
	defer s.mx.Unlock()
	if err != nil {
		return
	}
	var o = s.m[key]
	if o == nil {
		return 0, data.ErrNotFound
	}
	o.inc(inc)
	return o.RC, nil
}

// Iterate all
func (s *Store) Iterate(f data.IterateObjectsFunc) (err error) {
	return s.IterateDel(func(k cipher.SHA256, rc uint32, v []byte) (bool, error) { return false, f(k, rc, v) })
}

// IterateDel iterates over a copy
func (s *Store) IterateDel(f data.IterateObjectsDelFunc) (err error) {
	var m = s.Snapshot()
	var ks []cipher.SHA256
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].Hex() < ks[j].Hex() })
	for _, k := range ks {
		var del bool
		if del, err = f(k, m[k].RC, m[k].Val); err != nil {
			if err == data.ErrStopIteration {
				err = nil
			}
			return
		}
		if del {
			s.Del(k)
		}
	}
	return
}

// Del object
func (s *Store) Del(key cipher.SHA256) (err error) {
	s.mx.Lock()
	defer s.mx.Unlock()
	delete(s.m, key)
	return
}

// DelUnused deletes the object if its counter is zero
func (s *Store) DelUnused(key cipher.SHA256) {
	s.mx.Lock()
	defer s.mx.Unlock()
	if o := s.m[key]; o != nil && o.RC == 0 {
		delete(s.m, key)
	}
}

// Amount of objects
func (s *Store) Amount() (all, used int) {
	for _, o := range s.Snapshot() {
		all++
		if o.RC > 0 {
			used++
		}
	}
	return
}

// Volume of objects
func (s *Store) Volume() (all, used int) {
	for _, o := range s.Snapshot() {
		all += len(o.Val)
		if o.RC > 0 {
			used += len(o.Val)
		}
	}
	return
}

// Close the Store
func (s *Store) Close() (err error) {
	s.mx.Lock()
	defer s.mx.Unlock()
	s.closed = true
	return
}

// Reopen closed
func (s *Store) Reopen() {
	s.mx.Lock()
	defer s.mx.Unlock()
	s.closed = false
}

// Snapshot of the content
func (s *Store) Snapshot() (m map[cipher.SHA256]Obj) {
	s.mx.Lock()
	defer s.mx.Unlock()
	m = make(map[cipher.SHA256]Obj)
	for k, o := range s.m {
		m[k] = *o
	}
	return
}

// Reads of the key
func (s *Store) Reads(key cipher.SHA256) int {
	s.mx.Lock()
	defer s.mx.Unlock()
	return s.reads[key]
}

// Peek returns stored value
func (s *Store) Peek(key cipher.SHA256) (val []byte, ok bool) {
	s.mx.Lock()
	defer s.mx.Unlock()
	var o *Obj
	if o, ok = s.m[key]; ok {
		val = append([]byte(nil), o.Val...)
	}
	return
}

// Lose an object as if it was damaged
func (s *Store) Lose(key cipher.SHA256) {
	s.mx.Lock()
	defer s.mx.Unlock()
	delete(s.m, key)
}
